package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// V holds what is shared by the verification of all functions of one run.
type V struct {
	prog      *ssa.Program
	fset      *token.FileSet
	spec      *Spec
	sol       *Solvers
	w         *World
	prop      string
	fnSeq     atomic.Int64
	recs      map[string]*RecDef
	hidden    map[string]bool // definitions a lemma does not look into
	recTerm   sync.Map        // op -> *RecDef
	typMu     sync.Mutex
	typCache  map[string]types.Type
	allPkgs   []*types.Package
	ssaPkgs   map[string]*ssa.Package
	byKey     map[string]*ssa.Function
	noUnroll  bool
	loopMu    sync.Mutex
	loops     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	modMu     sync.Mutex
	mods      map[*ssa.Function]map[string]Sort
	inlined   map[string]bool // contracts given up in this run
	axioms    []*axTerm
	lemmas    []*axTerm
	globWr    map[*ssa.Global]int
	skipSpec  map[string]bool
	addrTaken map[*ssa.Global]bool
	debug     bool
	execSeq   atomic.Int64
	elems     sync.Map // heap name -> types.Type of the values stored
	deadline  time.Time
}

type axTerm struct {
	on   []string
	t    *Term
	name string
	ord  int
}

// models: library functions the verifier executes as Go code of specs/model
var models = map[string]string{
	"io/fs.WalkDir": "github.com/youthlin/t.verifWalkDir",
}

func (v *V) model(f *ssa.Function) *ssa.Function {
	if k, ok := models[f.String()]; ok {
		return v.byKey[k]
	}
	return nil
}

func loadRepo(specDir string) (*V, error) {
	env := append(os.Environ(), "GOWORK=/opt/vp/go.work", "GOFLAGS=-mod=readonly")
	if _, err := os.Stat("/opt/vp/go.work"); err != nil {
		env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir: "/repo", Env: env}
	if b, err := os.ReadFile(filepath.Join(specDir, "model", "t.go")); err == nil {
		cfg.Overlay = map[string][]byte{"/repo/zz_verif_model.go": b}
	}
	pkgs, err := packages.Load(cfg, "github.com/youthlin/t/...", "github.com/youthlin/t/cmd/xtemplate/...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	v := &V{prog: prog, fset: prog.Fset, recs: map[string]*RecDef{}, typCache: map[string]types.Type{}, ssaPkgs: map[string]*ssa.Package{},
		byKey: map[string]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, mods: map[*ssa.Function]map[string]Sort{}, inlined: map[string]bool{}, globWr: map[*ssa.Global]int{}, addrTaken: map[*ssa.Global]bool{}}
	for _, p := range ps {
		if p != nil {
			p.Build()
			v.ssaPkgs[p.Pkg.Path()] = p
		}
	}
	seen := map[*types.Package]bool{}
	var add func(p *types.Package)
	add = func(p *types.Package) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		v.allPkgs = append(v.allPkgs, p)
		for _, i := range p.Imports() {
			add(i)
		}
	}
	var names []string
	for n := range v.ssaPkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		add(v.ssaPkgs[n].Pkg)
	}
	fns := ssautil.AllFunctions(prog)
	// methods nothing converts to an interface and nothing calls
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || fns[f] {
			return
		}
		fns[f] = true
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, n := range names {
		for _, m := range v.ssaPkgs[n].Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			named, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < named.NumMethods(); i++ {
				addFn(prog.FuncValue(named.Method(i)))
			}
		}
	}
	for fn := range fns {
		if fn.Pkg == nil || v.ssaPkgs[fn.Pkg.Pkg.Path()] == nil {
			continue
		}
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		v.byKey[fn.Pkg.Pkg.Path()+"."+fn.RelString(fn.Pkg.Pkg)] = fn
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch in := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if in.Addr == g {
								if fn.Name() != "init" || fn.Synthetic == "" {
									v.globWr[g]++
								}
							} else {
								v.addrTaken[g] = true
							}
						case *ssa.DebugRef:
						case *ssa.FieldAddr, *ssa.IndexAddr:
							v.globWr[g]++
						default:
							v.addrTaken[g] = true
						}
					}
				}
			}
		}
	}
	return v, nil
}

func (v *V) fname(fn *ssa.Function) string {
	if fn == nil {
		return "lemma"
	}
	if fn.Pkg == nil {
		return fn.String()
	}
	return shortQual(fn.Pkg.Pkg) + "." + fn.RelString(fn.Pkg.Pkg)
}

func fnKey(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return fn.String()
	}
	return fn.Pkg.Pkg.Path() + "." + fn.RelString(fn.Pkg.Pkg)
}

func (v *V) pkgByPath(p string) *types.Package {
	if p == "" {
		return nil
	}
	if s, ok := v.ssaPkgs[p]; ok {
		return s.Pkg
	}
	for _, q := range v.allPkgs {
		if q.Path() == p {
			return q
		}
	}
	return nil
}

func (v *V) findGlobal(pkg *types.Package, name string) *ssa.Global {
	if k := strings.Index(name, "."); k >= 0 {
		for _, p := range v.prog.AllPackages() {
			if p.Pkg.Name() == name[:k] {
				if g, ok := p.Members[name[k+1:]].(*ssa.Global); ok {
					return g
				}
			}
		}
		return nil
	}
	if pkg == nil {
		return nil
	}
	if p := v.prog.Package(pkg); p != nil {
		if g, ok := p.Members[name].(*ssa.Global); ok {
			return g
		}
	}
	return nil
}

// globalConst: a global that is initialised once, never written elsewhere.
func (v *V) stable(g *ssa.Global) bool {
	return v.globWr[g] == 0 && !v.addrTaken[g]
}

// regexPattern gives the literal pattern of a global regexp.
func (v *V) regexPattern(g *ssa.Global) (string, bool) {
	if !v.stable(g) {
		return "", false
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return "", false
	}
	pat, n := "", 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				n++
				if c, ok := s.Val.(*ssa.Call); ok && len(c.Call.Args) == 1 {
					if f := c.Call.StaticCallee(); f != nil && f.String() == "regexp.MustCompile" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							pat = constant.StringVal(k.Value)
						}
					}
				}
			}
		}
	}
	return pat, n == 1 && pat != ""
}

func (v *V) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	v.loopMu.Lock()
	defer v.loopMu.Unlock()
	if m, ok := v.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				body := m[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					m[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	v.loops[fn] = m
	return m
}

// ghostInit names the ghost heap a freshly allocated object of the type starts with.
func (v *V) ghostInit(t types.Type) string {
	switch types.TypeString(t, nil) {
	case "bytes.Buffer", "strings.Builder":
		return "buf"
	}
	return ""
}

func (v *V) newSpecExec() *Exec {
	return &Exec{V: v, w: v.w, id: int(v.execSeq.Add(1)), heapSorts: map[string]Sort{}, entryHeaps: map[string]*Term{}, fnTab: map[string]*FnVal{}, used: map[string]bool{}, trusted: map[string]bool{}, notes: map[string]bool{}}
}

// analyzeRecs fixes the implicit heap parameters of all recursive functions.
func (v *V) analyzeRecs() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("recursive functions: %v", r)
		}
	}()
	var names []string
	for n, f := range v.spec.Fns {
		if f.Kind == "rec" {
			names = append(names, n)
			v.recs[n] = &RecDef{f: f, sorts: map[string]Sort{}}
		}
	}
	sort.Strings(names)
	for round := 0; ; round++ {
		ch := false
		for _, n := range names {
			d := v.recs[n]
			k := len(d.heaps)
			func() {
				defer func() {
					if r := recover(); r != nil {
						panic(fmt.Sprintf("%s: %v", n, r))
					}
				}()
				d.evalBody(v)
			}()
			ch = ch || len(d.heaps) != k
		}
		if !ch {
			break
		}
		// declarations made before all heap parameters were known
		v.w.mu.Lock()
		for _, n := range names {
			delete(v.w.funs, n)
		}
		v.w.mu.Unlock()
		if round > 20 {
			return fmt.Errorf("recursive functions: no fixpoint")
		}
	}
	for _, n := range names {
		v.recTerm.Store(n, v.recs[n])
	}
	// those that do not reach themselves are abbreviations, unfolded all the way
	calls := map[string]map[string]bool{}
	for _, n := range names {
		m := map[string]bool{}
		walk([]*Term{v.recs[n].body}, func(t *Term) {
			if t.Kind == 'a' && v.recs[t.Op] != nil {
				m[t.Op] = true
			}
		})
		calls[n] = m
	}
	for ch := true; ch; {
		ch = false
		for _, n := range names {
			for m := range calls[n] {
				for k := range calls[m] {
					if !calls[n][k] {
						calls[n][k] = true
						ch = true
					}
				}
			}
		}
	}
	for _, n := range names {
		v.recs[n].flat = !calls[n][n]
	}
	return nil
}

// recDef returns the analysed definition.
func (v *V) recDef(x *Exec, f *SpecFn) *RecDef { return v.recs[f.Name] }

// ---- query construction ----

func (v *V) unfold(ts []*Term, depth int, hid map[string]bool) []*Term {
	var out []*Term
	done := map[int]bool{}
	// the definitions at the applications in ts; flat: only of abbreviations
	step := func(ts []*Term, flat bool) []*Term {
		var apps []*Term
		walk(ts, func(t *Term) {
			if t.Kind == 'a' && !t.bound && !done[t.ID] {
				if rd, ok := v.recs[t.Op]; ok && !v.hidden[t.Op] && !hid[t.Op] && (!flat || rd.flat) {
					done[t.ID] = true
					apps = append(apps, t)
				}
			}
		})
		var add []*Term
		for _, a := range apps {
			rd := v.recs[a.Op]
			m := map[*Term]*Term{}
			for i, f := range rd.formals {
				m[f] = a.Args[i]
			}
			b := Subst(rd.body, m)
			if b != a {
				add = append(add, Eq(a, b))
			}
		}
		out = append(out, add...)
		return add
	}
	cur := ts
	for d := 0; d < depth && len(cur) > 0; d++ {
		cur = step(cur, false)
	}
	for len(cur) > 0 {
		cur = step(cur, true)
	}
	return out
}

// seqExt gives the extensionality instances of the sequences in the query.
func (v *V) seqExt(ts []*Term) []*Term {
	var apps []*Term
	walk(ts, func(t *Term) {
		if t.Kind == 'a' && !t.bound && strings.HasPrefix(t.Op, "seq!") {
			apps = append(apps, t)
		}
	})
	if len(apps) > 14 {
		apps = apps[:14]
	}
	var out []*Term
	for i, a := range apps {
		for _, b := range apps[:i] {
			if a.Sort != b.Sort || a.Op != b.Op {
				continue
			}
			na, oka := intVal(a.Args[2])
			nb, okb := intVal(b.Args[2])
			if oka && okb && na.Cmp(nb) != 0 {
				continue
			}
			if oka || okb {
				n := na
				if !oka {
					n = nb
				}
				if n.IsInt64() && n.Int64() <= 12 {
					var cs []*Term
					cs = append(cs, Eq(a.Args[2], b.Args[2]))
					for k := int64(0); k < n.Int64(); k++ {
						cs = append(cs, Eq(Select(a.Args[0], Add(a.Args[1], Int(k))), Select(b.Args[0], Add(b.Args[1], Int(k)))))
					}
					out = append(out, Implies(And(cs...), Eq(a, b)))
					continue
				}
			}
			k := Bnd("?q", SInt)
			out = append(out, Implies(And(Eq(a.Args[2], b.Args[2]), Quant("forall", []*Term{k}, nil, Implies(And(Le(Zero, k), Lt(k, a.Args[2])), Eq(Select(a.Args[0], Add(a.Args[1], k)), Select(b.Args[0], Add(b.Args[1], k)))))), Eq(a, b)))
		}
	}
	return out
}

func hasQuant(t *Term) bool {
	r := false
	walk([]*Term{t}, func(x *Term) {
		if x.Kind == 'q' {
			r = true
		}
	})
	return r
}

// queryText renders facts plus one more assertion.
// mode 1: feasibility (cheap, fewer facts), mode 2: full.
func (v *V) queryText(w *World, facts []*Term, c *Term, mode int) string {
	return v.queryTextH(w, facts, c, mode, nil)
}

// queryTextH leaves the definitions in hid folded.
func (v *V) queryTextH(w *World, facts []*Term, c *Term, mode int, hid map[string]bool) string {
	ts := make([]*Term, 0, len(facts)+8)
	seen := map[int]bool{}
	push := func(t *Term) {
		if t == True || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		ts = append(ts, t)
	}
	for _, f := range facts {
		if f.bound || mode == 1 && hasQuant(f) {
			continue // (f.bound: learned while evaluating a closure under a quantifier)
		}
		push(f)
	}
	if c.bound {
		c = True
	}
	push(c)
	base := append([]*Term{}, ts...)
	depth := 2
	if mode == 1 {
		depth = 1
	}
	for _, t := range v.unfold(base, depth, hid) {
		push(t)
	}
	for _, t := range v.builtinFacts(ts, mode) {
		push(t)
	}
	if mode != 1 {
		heads := map[string]bool{}
		mark := func(from int) {
			walk(ts[from:], func(t *Term) {
				if t.Kind == 'a' {
					heads[t.Op] = true
				}
			})
		}
		mark(0)
		used := map[*axTerm]bool{}
		for round := 0; round < 2; round++ {
			k := len(ts)
			for _, a := range v.axioms {
				if !used[a] && matches(a.on, heads) {
					used[a] = true
					push(a.t)
				}
			}
			if len(ts) == k {
				break
			}
			mark(k)
		}
		for _, t := range v.seqExt(ts) {
			push(t)
		}
		for _, t := range v.frameFacts(ts) {
			push(t)
		}
		for _, t := range v.instances(ts) {
			push(t)
		}
	}
	for _, t := range ts {
		if t == False {
			return "(assert false)\n"
		}
	}
	return w.prelude(ts) + printShared(ts)
}

func matches(on []string, heads map[string]bool) bool {
	for _, o := range on {
		if !heads[o] {
			return false
		}
	}
	return true
}

// builtinFacts adds ground facts about the built-in uninterpreted functions.
func (v *V) builtinFacts(ts []*Term, mode int) []*Term {
	var out []*Term
	w := v.w
	boxes := map[string]bool{}
	walk(ts, func(t *Term) {
		if t.Kind == 'a' && t.bound && mode != 1 && strings.HasPrefix(t.Op, "box!") && !boxes[t.Op] {
			boxes[t.Op] = true
			b := Bnd("?bx", t.Args[0].Sort)
			app := App(t.Op, t.Sort, b)
			out = append(out, Quant("forall", []*Term{b}, [][]*Term{{app}}, Eq(w.Fun("unbox!"+b.Sort, b.Sort, app), b)))
		}
		if t.Kind != 'a' || t.bound {
			return
		}
		switch {
		case t.Op == "str.to_code":
			out = append(out, Lt(t, Int(256)))
		case t.Op == "itoa":
			out = append(out, Lt(Zero, StrLen(t)))
			out = append(out, Eq(w.Fun("atoi", SInt, t), t.Args[0]))
			out = append(out, Eq(t, Ite(Le(Zero, t.Args[0]), App("str.from_int", SStr, t.Args[0]), Concat(Str("-"), App("str.from_int", SStr, Sub(Zero, t.Args[0]))))))
		case strings.HasPrefix(t.Op, "box!"):
			out = append(out, Eq(w.Fun("unbox!"+t.Args[0].Sort, t.Args[0].Sort, t), t.Args[0]))
		case strings.HasPrefix(t.Op, "card!"):
			out = append(out, Le(Zero, t))
		case t.Op == "bstr":
			out = append(out, Implies(Le(Zero, t.Args[2]), Eq(StrLen(t), t.Args[2])))
		}
	})
	return out
}
