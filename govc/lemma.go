package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"
)

// Axioms and lemmas. A lemma is proved by (well-founded) induction on an
// integer measure from the axioms and the lemmas before it, then used like an
// axiom: quantified, with its trigger, in every query that mentions its heads.

func (v *V) axiomState() *State {
	st := &State{heaps: map[string]*Term{}, ghost: map[string]*Term{}}
	st.A = SymR("A!ax", SInt, 1)
	st.A.alloc = true
	return st
}

// close turns the heap symbols of a formula into bound variables.
func closeHeaps(x *Exec, st *State, t *Term) (*Term, []*Term) {
	m := map[*Term]*Term{}
	var vs []*Term
	for _, h := range sortedKeys(x.entryHeaps) {
		b := Bnd("?h!"+h, x.entryHeaps[h].Sort)
		m[x.entryHeaps[h]] = b
		vs = append(vs, b)
	}
	if len(m) == 0 {
		return t, nil
	}
	r := Subst(t, m)
	var used []*Term
	for _, b := range vs {
		found := false
		walk([]*Term{r}, func(s *Term) {
			if s == b {
				found = true
			}
		})
		if found {
			used = append(used, b)
		}
	}
	return r, used
}

func (v *V) loadAxioms() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("axioms: %v", r)
		}
	}()
	for i, a := range v.spec.Axioms {
		x := v.newSpecExec()
		st := v.axiomState()
		ev := &Env{x: x, pkg: v.pkgByPath(a.Pkg), st: st, vars: map[string]SV{}}
		t := ev.Bool(a.E)
		v.axioms = append(v.axioms, &axTerm{on: a.On, t: t, name: a.Pos, ord: i})
	}
	return nil
}

type lemEnv struct {
	x    *Exec
	st   *State
	vars map[string]SV
	ev   *Env
	syms map[string][]*Term
}

func (v *V) lemmaEnv(l *Lemma, mk func(name string, s Sort) *Term, share *lemEnv, fixed map[string]bool) *lemEnv {
	le := &lemEnv{vars: map[string]SV{}, syms: map[string][]*Term{}}
	if share != nil {
		le.x, le.st = share.x, share.st
	} else {
		le.x = v.newSpecExec()
		le.st = v.axiomState()
	}
	le.ev = &Env{x: le.x, pkg: v.pkgByPath(l.Pkg), st: le.st, vars: le.vars}
	e := &Ex{Pos: l.Pos}
	for _, p := range l.Params {
		if share != nil && fixed[p.Name] {
			le.vars[p.Name] = share.vars[p.Name]
			continue
		}
		if strings.HasPrefix(p.Type, "list ") {
			et := le.ev.typ(e, p.Type[5:])
			a := mk(p.Name, arr(SInt, le.x.w.SortOf(et)))
			o := mk(p.Name+".off", SInt)
			le.vars[p.Name] = SV{T: a, Off: o, IsList: true, Typ: sliceOf(et)}
			le.syms[p.Name] = []*Term{a, o}
			continue
		}
		s, t := le.ev.specSort(e, p.Type)
		a := mk(p.Name, s)
		le.vars[p.Name] = SV{T: a, Typ: t}
		le.syms[p.Name] = []*Term{a}
	}
	return le
}

func (le *lemEnv) bools(es []*Ex) []*Term {
	var out []*Term
	for _, e := range es {
		out = append(out, le.ev.Bool(e))
	}
	return out
}

// quantified gives the lemma as a closed formula over its bound parameters.
func (v *V) quantified(l *Lemma, le *lemEnv, extra *Term) *Term {
	var vs []*Term
	for _, p := range l.Params {
		vs = append(vs, le.syms[p.Name]...)
	}
	body := Implies(And(append(le.bools(l.Requires), extra)...), And(le.bools(l.Ensures)...))
	var pats [][]*Term
	for _, tr := range l.Trig {
		var ps []*Term
		for _, t := range tr {
			ps = append(ps, le.ev.eval(t).T)
		}
		pats = append(pats, ps)
	}
	if len(vs) == 0 {
		return body
	}
	return Quant("forall", vs, pats, body)
}

func (v *V) lemmaByName(n string) *Lemma {
	for _, l := range v.spec.Lemmas {
		if l.Name == n {
			return l
		}
	}
	return nil
}

// useLemma gives an instance of a lemma.
func (x *Exec) useLemma(ev *Env, e *Ex) *Term {
	l := x.V.lemmaByName(e.Name)
	if e.Op != "call" || l == nil {
		ev.fail(e, "use needs a lemma call")
	}
	if len(e.Args) != len(l.Params) {
		ev.fail(e, "lemma %s needs %d arguments", l.Name, len(l.Params))
	}
	c := &Env{x: x, pkg: x.V.pkgByPath(l.Pkg), st: ev.st, old: ev.old, vars: map[string]SV{}}
	for i, p := range l.Params {
		a := ev.eval(e.Args[i])
		if strings.HasPrefix(p.Type, "list ") && !a.IsList {
			ar, off, _ := ev.sliceArr(a)
			a = SV{T: ar, Off: off, IsList: true, Typ: a.Typ}
		}
		c.vars[p.Name] = a
	}
	var rs, es []*Term
	for _, r := range l.Requires {
		rs = append(rs, c.Bool(r))
	}
	for _, r := range l.Ensures {
		es = append(es, c.Bool(r))
	}
	return Implies(And(rs...), And(es...))
}

func (l *Lemma) applies(prop string) bool { return len(l.Labels) == 0 || l.Labels[prop] }

// proveLemmas proves the lemmas of the property in order.
func (v *V) proveLemmas(limit time.Duration, log func(string, ...any)) (results []*FnResult, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("lemmas: %v", r)
		}
	}()
	for i, l := range v.spec.Lemmas {
		if !l.applies(v.prop) {
			continue
		}
		t0 := time.Now()
		r := &FnResult{Key: "lemma " + l.Name, Name: "lemma " + l.Name, Pos: l.Pos, Returns: 1, used: map[string]bool{}, trusted: map[string]bool{}, notes: map[string]bool{}}
		v.hidden = map[string]bool{}
		for _, h := range l.Hide {
			v.hidden[h] = true
		}
		le := v.lemmaEnv(l, func(n string, s Sort) *Term { return Sym("c!"+l.Name+"."+n, s) }, nil, nil)
		x := le.x
		x.con = &Contract{Pos: l.Pos}
		for _, q := range le.bools(l.Requires) {
			le.st.assume(q)
		}
		if v.sol.Quick(v.queryText(v.w, le.st.facts, True, 1), 400) == Unsat {
			r.Err = "the hypotheses are contradictory"
		}
		for _, u := range l.Uses {
			if k := v.lemmaByName(u.Name); k != nil {
				ok := false
				for _, p := range v.spec.Lemmas[:i] {
					ok = ok || p == k
				}
				if !ok {
					return results, fmt.Errorf("%s: lemma %s used before it is proved", l.Pos, u.Name)
				}
			}
			le.st.assume(x.useLemma(le.ev, u))
		}
		if l.Induct != "" {
			me, e2 := parseExpr(l.Induct, l.Pos)
			if e2 != nil {
				return results, e2
			}
			fixed := map[string]bool{}
			if len(l.Gen) > 0 {
				gen := map[string]bool{}
				for _, g := range l.Gen {
					gen[g] = true
				}
				for _, p := range l.Params {
					if !gen[p.Name] && !mentions(me, map[string]bool{p.Name: true}) {
						fixed[p.Name] = true
					}
				}
			}
			ih := v.lemmaEnv(l, func(n string, s Sort) *Term { return Bnd("?"+l.Name+"."+n, s) }, le, fixed)
			m0, m1 := le.ev.eval(me).T, ih.ev.eval(me).T
			le.st.assume(v.quantified(l, ih, And(Le(Zero, m1), Lt(m1, m0))))
		}
		for _, e := range l.Ensures {
			x.goal(le.st, "lemma", l.Name, l.Pos, le.ev.Bool(e))
		}
		for _, o := range x.obls {
			o.Func = "lemma " + l.Name
		}
		r.Obls, r.Trivial = x.obls, x.trivial
		v.prove(r.Obls, limit, nil)
		v.hidden = nil
		r.Ms = time.Since(t0).Milliseconds()
		results = append(results, r)
		st := "ok"
		if !r.ok() {
			st = "FAILED"
		}
		log("%-8s lemma %s: %d obligations, %d ms", st, l.Name, len(r.Obls), r.Ms)
		for _, o := range r.failed() {
			log("   %s %s at %s: %s", o.Ans, o.Kind, o.Pos, o.Text)
		}
		if len(l.On) > 0 {
			qe := v.lemmaEnv(l, func(n string, s Sort) *Term { return Bnd("?"+l.Name+"."+n, s) }, nil, nil)
			t := v.quantified(l, qe, True)
			var hv []*Term
			t, hv = closeHeaps(qe.x, qe.st, t)
			if len(hv) > 0 {
				if t.Kind == 'q' {
					t = Quant("forall", append(hv, t.Vars...), t.Pats, t.Args[0])
				} else {
					t = Quant("forall", hv, nil, t)
				}
			}
			v.axioms = append(v.axioms, &axTerm{on: l.On, t: t, name: l.Name, ord: 1000 + i})
		}
	}
	sort.SliceStable(v.axioms, func(i, j int) bool { return v.axioms[i].ord < v.axioms[j].ord })
	return
}

func sliceOf(t types.Type) types.Type { return types.NewSlice(t) }
