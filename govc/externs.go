package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions outside the repository. Every model used is listed
// among the assumptions of the evidence.

var errType = func() types.Type {
	p := types.NewPackage("govc", "govc")
	n := types.NewNamed(types.NewTypeName(token.NoPos, p, "errval", nil), types.NewStruct(nil, nil), nil)
	return types.NewPointer(n)
}()

func (x *Exec) errIs(e, t *Term) *Term { return x.w.Fun("errIs", SBool, e, t) }

// newErr makes a fresh non-nil error that wraps the given ones.
func (x *Exec) newErr(st *State, wraps []*Term) *Term {
	r := MkIface(Int(int64(x.w.Tag(errType))), st.alloc())
	t := Bnd("?t", SIface)
	app := x.errIs(r, t)
	var or []*Term
	or = append(or, Eq(r, t))
	for _, w := range wraps {
		sent := And(Eq(ITag(w), Int(int64(x.w.Tag(errType)))), Lt(Int(500000000), IVal(w)), Lt(IVal(w), Int(600000000)))
		or = append(or, Ite(sent, Eq(w, t), And(Not(Eq(ITag(w), Zero)), x.errIs(w, t))))
	}
	st.assume(Quant("forall", []*Term{t}, [][]*Term{{app}}, Eq(app, Or(or...))))
	return r
}

func (x *Exec) sentinel(ref int) *Term {
	return MkIface(Int(int64(x.w.Tag(errType))), Int(int64(500000000+ref)))
}

// globalTerm gives the value of a global that never changes, nil if unknown.
func (x *Exec) globalTerm(g *ssa.Global) (Val, bool) {
	el := g.Type().(*types.Pointer).Elem()
	ref := x.w.GlobalRef(g.String())
	if !isRepo(g.Pkg.Pkg) {
		if types.Identical(el, types.Universe.Lookup("error").Type()) {
			return Val{T: x.sentinel(ref)}, true
		}
		s := x.w.SortOf(el)
		switch s {
		case SSlice, SIface:
			return Val{}, false
		case SInt:
			return Val{T: Int(int64(600000000 + ref))}, true
		}
		return Val{T: Sym("glob!"+g.String(), s)}, true
	}
	if !x.V.stable(g) {
		return Val{}, false
	}
	init := g.Pkg.Func("init")
	var val ssa.Value
	n := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				n++
				val = s.Val
			}
		}
	}
	if n == 0 {
		if _, ok := el.Underlying().(*types.Basic); ok {
			return Val{T: x.w.ZeroOf(el)}, true
		}
		return Val{}, false
	}
	if n != 1 {
		return Val{}, false
	}
	switch v := val.(type) {
	case *ssa.Const:
		return Val{T: x.constTerm(v.Value, v.Type())}, true
	case *ssa.MakeInterface:
		if c, ok := v.X.(*ssa.Const); ok {
			return Val{T: MkIface(Int(int64(x.w.Tag(c.Type()))), x.w.Box(x.constTerm(c.Value, c.Type())))}, true
		}
	case *ssa.Function:
		f := &FnVal{Fn: v}
		return Val{Fn: f, T: x.fnTerm(f)}, true
	case *ssa.MakeClosure:
		if len(v.Bindings) == 0 {
			f := &FnVal{Fn: v.Fn.(*ssa.Function)}
			return Val{Fn: f, T: x.fnTerm(f)}, true
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "errors.New", "fmt.Errorf", "github.com/youthlin/t/errors.Errorf", "github.com/youthlin/t/errors.New":
				if len(v.Call.Args) > 0 {
					if c, ok := v.Call.Args[0].(*ssa.Const); ok && c.Value != nil && !strings.Contains(constant.StringVal(c.Value), "%w") {
						return Val{T: x.sentinel(ref)}, true
					}
				}
			case "regexp.MustCompile":
				return Val{T: Int(int64(600000000 + ref))}, true
			}
		}
	}
	return Val{}, false
}

// patternOf recovers the literal pattern of a regexp value.
func (x *Exec) patternOf(t *Term) (string, bool) {
	n, ok := intVal(t)
	if !ok {
		return "", false
	}
	k := n.Int64() - 600000000
	for _, p := range x.V.prog.AllPackages() {
		if !isRepo(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && int64(x.w.GlobalRef(g.String())) == k {
				return x.V.regexPattern(g)
			}
		}
	}
	return "", false
}

type verb struct {
	lit  string
	verb byte
	flag string
}

func parseFormat(f string) ([]verb, bool) {
	var out []verb
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		j := i
		for j < len(f) && strings.IndexByte("0123456789.+-# ", f[j]) >= 0 {
			j++
		}
		if j >= len(f) || f[j] == '[' || f[j] == '*' {
			return nil, false
		}
		out = append(out, verb{lit, f[j], f[i:j]})
		lit = ""
		i = j
	}
	return append(out, verb{lit, 0, ""}), true
}

// sprintf gives the text of a formatted call.
func (x *Exec) sprintf(st *State, format, args *Term) *Term {
	el := types.Universe.Lookup("any").Type()
	a := selRef(x.heapFor(st, elemHeap(el), el), SRef(args))
	if f, ok := strVal(format); ok {
		if n, ok := intVal(SLen(args)); ok {
			vs, ok := parseFormat(f)
			if ok && int64(len(vs)-1) == n.Int64() {
				var parts []*Term
				for i, v := range vs {
					parts = append(parts, Str(v.lit))
					if v.verb == 0 {
						break
					}
					e := Select(a, Add(SOff(args), Int(int64(i))))
					vb := v.verb
					if vb == 'w' {
						vb = 'v'
					}
					if v.flag == "" {
						parts = append(parts, x.fmtVerb(vb, e))
					} else {
						parts = append(parts, x.w.Fun("fmtv!"+v.flag+string(vb), SStr, e))
					}
				}
				return Concat(parts...)
			}
		}
	}
	return x.w.Fun("sprintf", SStr, format, x.seqOf(a, SOff(args), SLen(args)))
}

// wrapped finds the arguments under %w.
func (x *Exec) wrapped(st *State, format, args *Term) []*Term {
	el := types.Universe.Lookup("any").Type()
	a := selRef(x.heapFor(st, elemHeap(el), el), SRef(args))
	var parts []*Term
	if format.Kind == 'a' && format.Op == "str.++" {
		parts = format.Args
	} else {
		parts = []*Term{format}
	}
	all := ""
	known := true
	for _, p := range parts {
		s, ok := strVal(p)
		if !ok {
			known = false
			all = ""
			continue
		}
		all += s
	}
	if known {
		vs, ok := parseFormat(all)
		if !ok {
			unsup("format %q", all)
		}
		var out []*Term
		for i, v := range vs {
			if v.verb == 'w' {
				out = append(out, Select(a, Add(SOff(args), Int(int64(i)))))
			}
		}
		return out
	}
	// an unknown prefix followed by a known suffix: count from the end
	if strings.Contains(all, "%w") {
		vs, ok := parseFormat(all)
		if !ok {
			unsup("format %q", all)
		}
		var out []*Term
		k := len(vs) - 1
		for i, v := range vs {
			if v.verb == 'w' {
				out = append(out, Select(a, Add(SOff(args), Sub(SLen(args), Int(int64(k-i))))))
			}
		}
		return out
	}
	return nil
}

func (x *Exec) isBuffer(t *Term) bool {
	n, ok := intVal(ITag(t))
	if !ok || n.Sign() <= 0 {
		return false
	}
	switch types.TypeString(x.w.TagType(int(n.Int64())), nil) {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}
func (x *Exec) tagName(t *Term) string {
	n, ok := intVal(ITag(t))
	if !ok || n.Sign() <= 0 {
		return ""
	}
	return types.TypeString(x.w.TagType(int(n.Int64())), nil)
}

func (x *Exec) bufAppend(st *State, ref, s *Term) {
	x.ghostSet(st, "buf", SStr, ref, Concat(x.ghostGet(st, "buf", SStr, ref), s))
}

// writeTo models handing bytes to an arbitrary writer: either everything is
// accepted, or an error is returned and an unknown part was accepted.
func (x *Exec) writeIface(fr *Frame, st *State, w, s *Term, k func(*Frame, *State, *Term, *Term)) {
	if x.isBuffer(w) {
		x.bufAppend(st, IVal(w), s)
		k(fr, st, StrLen(s), NilIface)
		return
	}
	if strings.Contains(x.tagName(w), "os.File") {
		x.notes["writes to os.File outside the model succeed or fail arbitrarily"] = true
	}
	x.notes["io.Writer.Write either accepts all bytes and returns nil, or returns an error after accepting a prefix"] = true
	f2, s2 := fr.clone(), st.clone()
	old := x.ghostGet(st, "out", SStr, IVal(w))
	x.ghostSet(st, "out", SStr, IVal(w), Concat(old, s))
	k(fr, st, StrLen(s), NilIface)
	p := SymR(x.uniq("part"), SStr, s2.rank())
	s2.assume(strPrefix(p, s))
	x.ghostSet(s2, "out", SStr, IVal(w), Concat(old, p))
	e := MkIface(SymR(x.uniq("werr.tag"), SInt, s2.rank()), SymR(x.uniq("werr.val"), SInt, s2.rank()))
	s2.assume(Lt(Zero, ITag(e)))
	k(f2, s2, StrLen(p), e)
}

func (x *Exec) newStrSlice(st *State, a, n *Term) *Term {
	r := st.alloc()
	x.setHeap(st, elemHeap(strTyp), strTyp, r, a)
	return MkSlice(r, Zero, n, n)
}
func (x *Exec) bytesOf(st *State, v *Term) *Term {
	el := types.Typ[types.Uint8]
	return x.bstr(selRef(x.heapFor(st, elemHeap(el), el), SRef(v)), SOff(v), SLen(v))
}
func (x *Exec) newBytes(st *State, s *Term) *Term {
	el := types.Typ[types.Uint8]
	r := st.alloc()
	a := x.w.Fun("sbytes", arr(SInt, SInt), s)
	x.setHeap(st, elemHeap(el), el, r, a)
	st.assume(Eq(x.w.Fun("bstr", SStr, a, Zero, StrLen(s)), s))
	return MkSlice(r, Zero, StrLen(s), StrLen(s))
}

// numeric decoding of 4 or 2 bytes
func (x *Exec) decode(order string, s *Term, n int64) *Term {
	return x.w.Fun(fmt.Sprintf("%s%d", order, n*8), SInt, s)
}
func (x *Exec) encode(order string, v *Term, n int64) *Term {
	return x.w.Fun(fmt.Sprintf("enc%s%d", order, n*8), SStr, v)
}
func (x *Exec) orderOf(t *Term) string {
	s := x.tagName(t)
	switch {
	case strings.Contains(s, "littleEndian"):
		return "le"
	case strings.Contains(s, "bigEndian"):
		return "be"
	}
	unsup("byte order %s", t)
	return ""
}

func fixedSize(t types.Type) (int64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8, types.Int8:
			return 1, true
		case types.Uint16, types.Int16:
			return 2, true
		case types.Uint32, types.Int32:
			return 4, true
		}
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			k, ok := fixedSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	}
	return 0, false
}

// encodeVal is the wire form of a fixed-size value.
func (x *Exec) encodeVal(order string, v *Term, t types.Type) *Term {
	if s, ok := structOf(t); ok {
		var ps []*Term
		for i := 0; i < s.NumFields(); i++ {
			ps = append(ps, x.encodeVal(order, x.w.Acc(i, v), s.Field(i).Type()))
		}
		return Concat(ps...)
	}
	n, ok := fixedSize(t)
	if !ok || v.Sort != SInt {
		unsup("binary.Write of %s", t)
	}
	return x.encode(order, v, n)
}
func (x *Exec) decodeInto(st *State, order string, a *Addr, data *Term, off int64) int64 {
	if s, ok := structOf(a.T); ok {
		for i := 0; i < s.NumFields(); i++ {
			off = x.decodeInto(st, order, x.fieldAddr(a, i), data, off)
		}
		return off
	}
	n, ok := fixedSize(a.T)
	if !ok {
		unsup("binary.Read of %s", a.T)
	}
	v := x.decode(order, Substr(data, Int(off), Int(n)), n)
	x.typeFacts(st, v, a.T, 1)
	x.store(st, a, v)
	return off + n
}

func (x *Exec) binaryRead(fr *Frame, st *State, r, ord, data *Term, k func(*Frame, *State, *Term)) {
	if x.tagName(r) != "*bytes.Reader" {
		unsup("binary.Read from %s", x.tagName(r))
	}
	order := x.orderOf(ord)
	rd := IVal(r)
	tn, ok := intVal(ITag(data))
	if !ok {
		unsup("binary.Read into unknown type")
	}
	pt, ok := x.w.TagType(int(tn.Int64())).Underlying().(*types.Pointer)
	var size *Term
	var sl *Term
	if ok {
		if s, ok := pt.Elem().Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				unsup("binary.Read into %s", pt)
			}
			sl = x.load(st, x.addrOf(Val{T: IVal(data)}, pt.Elem()))
			size = SLen(sl)
		} else {
			n, ok := fixedSize(pt.Elem())
			if !ok {
				unsup("binary.Read into %s", pt)
			}
			size = Int(n)
		}
	} else if x.tagName(data) == "[]uint8" {
		sl = x.w.Unbox(IVal(data), SSlice)
		size = SLen(sl)
	} else {
		unsup("binary.Read into %s", x.tagName(data))
	}
	content := x.ghostGet(st, "rdc", SStr, rd)
	pos := x.ghostGet(st, "rdp", SInt, rd)
	st.assume(Le(Zero, pos))
	fits := Or(Eq(size, Zero), Le(Add(pos, size), StrLen(content)))
	x.fork(fr, st, fits, func(fr *Frame, st *State, ok bool) {
		if !ok {
			x.ghostSet(st, "rdp", SInt, rd, SymR(x.uniq("rdp"), SInt, st.rank()))
			e := x.newErr(st, nil)
			// io.EOF or io.ErrUnexpectedEOF
			e = MkIface(SymR(x.uniq("rerr.tag"), SInt, st.rank()), SymR(x.uniq("rerr.val"), SInt, st.rank()))
			st.assume(Lt(Zero, ITag(e)))
			k(fr, st, e)
			return
		}
		got := Substr(content, pos, size)
		st.assume(Eq(StrLen(got), size))
		if sl != nil {
			el := types.Typ[types.Uint8]
			hn := elemHeap(el)
			h := x.heapFor(st, hn, el)
			oldA := selRef(h, SRef(sl))
			// the window receives the bytes
			na := x.w.Fun("splice", arr(SInt, SInt), oldA, SOff(sl), got)
			x.setHeapRaw(st, hn, h, SRef(sl), na)
			st.assume(Eq(x.w.Fun("bstr", SStr, na, SOff(sl), size), got))
		} else {
			x.decodeInto(st, order, x.addrOf(Val{T: IVal(data)}, pt.Elem()), got, 0)
		}
		x.ghostSet(st, "rdp", SInt, rd, Add(pos, size))
		k(fr, st, NilIface)
	})
}

func (x *Exec) ext1(st *State, name string, rt types.Type, args ...*Term) *Term {
	r := x.w.Fun(name, x.w.SortOf(rt), args...)
	x.typeFacts(st, r, rt, 1)
	return r
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true,
	"golang.org/x/text/language": true, "math": true, "net/http": true, "golang.org/x/text/internal/language": true, "github.com/Xuanwo/go-locale": true, "time": true, "net/textproto": true}

func (x *Exec) extern(fr *Frame, st *State, pos token.Pos, f *ssa.Function, args []Val, c *ssa.CallCommon, k func(*Frame, *State, Val)) bool {
	w := x.w
	name := f.String()
	arg := func(i int) *Term { return x.valTerm(args[i]) }
	ret := func(ts ...*Term) {
		if len(ts) == 1 {
			k(fr, st, Val{T: ts[0]})
			return
		}
		var v Val
		for _, t := range ts {
			v.Tup = append(v.Tup, Val{T: t})
		}
		k(fr, st, v)
	}
	x.trusted[name] = true
	ifaceErr := func(st *State, okc *Term) *Term {
		e := MkIface(SymR(x.uniq("err.tag"), SInt, st.rank()), SymR(x.uniq("err.val"), SInt, st.rank()))
		st.assume(Le(Zero, ITag(e)))
		st.assume(Eq(okc, Eq(ITag(e), Zero)))
		st.assume(Implies(Eq(ITag(e), Zero), Eq(IVal(e), Zero)))
		return e
	}
	switch name {
	// ---- fmt / errors
	case "fmt.Sprintf":
		ret(x.sprintf(st, arg(0), arg(1)))
	case "fmt.Sprint", "fmt.Sprintln":
		ret(w.Fun(name, SStr, x.sliceSeq(st, arg(0), types.NewSlice(types.Universe.Lookup("any").Type()))))
	case "fmt.Fprintf":
		x.writeIface(fr, st, arg(0), x.sprintf(st, arg(1), arg(2)), func(fr *Frame, st *State, n, e *Term) {
			k(fr, st, Val{Tup: []Val{{T: n}, {T: e}}})
		})
	case "fmt.Fprint", "fmt.Fprintln":
		s := w.Fun(name, SStr, x.sliceSeq(st, arg(1), types.NewSlice(types.Universe.Lookup("any").Type())))
		x.writeIface(fr, st, arg(0), s, func(fr *Frame, st *State, n, e *Term) {
			k(fr, st, Val{Tup: []Val{{T: n}, {T: e}}})
		})
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		ret(SymR(x.uniq("n"), SInt, st.rank()), MkIface(Zero, Zero))
	case "io.WriteString":
		x.writeIface(fr, st, arg(0), arg(1), func(fr *Frame, st *State, n, e *Term) {
			k(fr, st, Val{Tup: []Val{{T: n}, {T: e}}})
		})
	case "fmt.Errorf":
		ret(x.newErr(st, x.wrapped(st, arg(0), arg(1))))
	case "errors.New":
		ret(x.newErr(st, nil))
	case "errors.Is":
		e, t := arg(0), arg(1)
		r := x.errIs(e, t)
		st.assume(Implies(Eq(e, t), r))
		st.assume(Implies(Eq(ITag(e), Zero), Eq(r, Eq(ITag(t), Zero))))
		if n, ok := intVal(IVal(e)); ok && n.Int64() > 500000000 && n.Int64() < 600000000 {
			st.assume(Eq(r, Eq(e, t)))
		}
		ret(r)
	case "github.com/cockroachdb/errors.Errorf":
		ret(x.newErr(st, nil))
	case "github.com/cockroachdb/errors.Wrapf", "github.com/cockroachdb/errors.Wrap":
		e := arg(0)
		x.fork(fr, st, Eq(ITag(e), Zero), func(fr *Frame, st *State, b bool) {
			if b {
				k(fr, st, Val{T: NilIface})
			} else {
				k(fr, st, Val{T: x.newErr(st, []*Term{e})})
			}
		})
	// ---- strings
	case "strings.Index":
		ret(App("str.indexof", SInt, arg(0), arg(1), Zero))
	case "strings.IndexByte":
		ret(App("str.indexof", SInt, arg(0), App("str.from_code", SStr, arg(1)), Zero))
	case "strings.LastIndex":
		s, sub := arg(0), arg(1)
		r := w.Fun("lastindex", SInt, s, sub)
		st.assume(lastIndexFact(r, s, sub))
		ret(r)
	case "strings.HasPrefix":
		ret(strPrefix(arg(1), arg(0)))
	case "strings.HasSuffix":
		ret(App("str.suffixof", SBool, arg(1), arg(0)))
	case "strings.Contains":
		ret(App("str.contains", SBool, arg(0), arg(1)))
	case "strings.TrimPrefix":
		s, p := arg(0), arg(1)
		ret(Ite(strPrefix(p, s), Substr(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s))
	case "strings.TrimSuffix":
		s, p := arg(0), arg(1)
		ret(Ite(App("str.suffixof", SBool, p, s), Substr(s, Zero, Sub(StrLen(s), StrLen(p))), s))
	case "strings.CutPrefix":
		s, p := arg(0), arg(1)
		c := strPrefix(p, s)
		ret(Ite(c, Substr(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s), c)
	case "strings.CutSuffix":
		s, p := arg(0), arg(1)
		c := App("str.suffixof", SBool, p, s)
		ret(Ite(c, Substr(s, Zero, Sub(StrLen(s), StrLen(p))), s), c)
	case "strings.Cut":
		s, p := arg(0), arg(1)
		i := App("str.indexof", SInt, s, p, Zero)
		c := App("str.contains", SBool, s, p)
		st.assume(Eq(c, Le(Zero, i)))
		ret(Ite(c, Substr(s, Zero, i), s), Ite(c, Substr(s, Add(i, StrLen(p)), Sub(StrLen(s), Add(i, StrLen(p)))), Str("")), c)
	case "strings.ReplaceAll":
		ret(w.Fun("replaceall", SStr, arg(0), arg(1), arg(2)))
	case "strings.TrimSpace":
		ret(x.trim(st, arg(0)))
	case "strings.Split":
		ret(x.split(st, arg(0), arg(1)))
	case "strings.Join":
		ret(x.join(st, arg(0), arg(1)))
	case "strings.EqualFold":
		r := w.Fun("equalfold", SBool, arg(0), arg(1))
		st.assume(Implies(Eq(arg(0), arg(1)), r))
		ret(r)
	// ---- strconv
	case "strconv.Itoa":
		ret(x.itoa(arg(0)))
	case "strconv.FormatInt":
		if n, ok := intVal(arg(1)); ok && n.Int64() == 10 {
			ret(x.itoa(arg(0)))
		} else {
			ret(w.Fun("formatint", SStr, arg(0), arg(1)))
		}
	case "strconv.Quote":
		ret(w.Fun("quote", SStr, arg(0)))
	case "strconv.Unquote":
		s := arg(0)
		okc := w.Fun("unquoteok", SBool, s)
		v := w.Fun("unquote", SStr, s)
		x.quoteFact(st, s)
		bad := x.sentinel(x.w.GlobalRef("strconv.ErrSyntax"))
		ret(Ite(okc, v, Str("")), Ite(okc, NilIface, bad))
	case "strconv.ParseInt", "strconv.Atoi":
		s := arg(0)
		sfx := ""
		if name == "strconv.ParseInt" {
			b, ok1 := intVal(arg(1))
			z, ok2 := intVal(arg(2))
			if !ok1 || !ok2 || b.Int64() != 10 || (z.Int64() != 64 && z.Int64() != 0) {
				sfx = "!" + arg(1).String() + "!" + arg(2).String()
			}
		}
		okc := w.Fun("intok"+sfx, SBool, s)
		rs := w.SortOf(f.Signature.Results().At(0).Type())
		v := w.Fun("intval"+sfx+map[bool]string{true: "!bv"}[rs == SBV], rs, s)
		x.typeFacts(st, v, f.Signature.Results().At(0).Type(), 1)
		r := v
		if rs == SInt {
			// on failure the result is unspecified by the model
			r = Ite(okc, v, w.Fun("intbad"+sfx, SInt, s))
			x.typeFacts(st, r, f.Signature.Results().At(0).Type(), 1)
		}
		ret(r, ifaceErr(st, okc))
	// ---- buffers
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		x.nilCheck(fr, st, arg(0), "nil buffer", pos)
		x.bufAppend(st, arg(0), arg(1))
		ret(StrLen(arg(1)), NilIface)
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		x.nilCheck(fr, st, arg(0), "nil buffer", pos)
		b := arg(1)
		s := App("str.from_code", SStr, b)
		if n, ok := intVal(b); ok {
			s = Str(string([]byte{byte(n.Int64())}))
		}
		x.bufAppend(st, arg(0), s)
		ret(NilIface)
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		x.nilCheck(fr, st, arg(0), "nil buffer", pos)
		n, ok := intVal(arg(1))
		if !ok {
			unsup("WriteRune of unknown rune")
		}
		x.bufAppend(st, arg(0), Str(string(rune(n.Int64()))))
		ret(Int(int64(len(string(rune(n.Int64()))))), NilIface)
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		x.nilCheck(fr, st, arg(0), "nil buffer", pos)
		s := x.bytesOf(st, arg(1))
		x.bufAppend(st, arg(0), s)
		ret(SLen(arg(1)), NilIface)
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		x.nilCheck(fr, st, arg(0), "nil buffer", pos)
		ret(x.ghostGet(st, "buf", SStr, arg(0)))
	case "(*bytes.Buffer).Bytes":
		ret(x.newBytes(st, x.ghostGet(st, "buf", SStr, arg(0))))
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		ret(StrLen(x.ghostGet(st, "buf", SStr, arg(0))))
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		k(fr, st, Val{})
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		x.ghostSet(st, "buf", SStr, arg(0), Str(""))
		k(fr, st, Val{})
	case "(*bytes.Buffer).WriteTo":
		b := arg(0)
		s := x.ghostGet(st, "buf", SStr, b)
		x.writeIface(fr, st, arg(1), s, func(fr *Frame, st *State, n, e *Term) {
			x.ghostSet(st, "buf", SStr, b, Ite(Eq(ITag(e), Zero), Str(""), Substr(s, n, Sub(StrLen(s), n))))
			k(fr, st, Val{Tup: []Val{{T: n}, {T: e}}})
		})
	case "bytes.NewReader", "strings.NewReader":
		r := st.alloc()
		s := arg(0)
		if s.Sort == SSlice {
			s = x.bytesOf(st, s)
			st.assume(Eq(StrLen(s), SLen(arg(0))))
		}
		x.ghostSet(st, "rdc", SStr, r, s)
		x.ghostSet(st, "rdp", SInt, r, Zero)
		ret(r)
	case "bytes.NewBuffer", "bytes.NewBufferString":
		r := st.alloc()
		s := arg(0)
		if s.Sort == SSlice {
			s = x.bytesOf(st, s)
		}
		x.ghostSet(st, "buf", SStr, r, s)
		ret(r)
	case "(*bytes.Reader).Seek":
		wh, ok := intVal(arg(2))
		if !ok || wh.Sign() != 0 {
			unsup("Seek whence")
		}
		r, off := arg(0), arg(1)
		x.fork(fr, st, Le(Zero, off), func(fr *Frame, st *State, b bool) {
			if b {
				x.ghostSet(st, "rdp", SInt, r, off)
				k(fr, st, Val{Tup: []Val{{T: off}, {T: NilIface}}})
			} else {
				k(fr, st, Val{Tup: []Val{{T: Zero}, {T: x.newErr(st, nil)}}})
			}
		})
	case "(*bytes.Reader).Len":
		r := arg(0)
		d := Sub(StrLen(x.ghostGet(st, "rdc", SStr, r)), x.ghostGet(st, "rdp", SInt, r))
		ret(Ite(Le(Zero, d), d, Zero))
	case "(*bytes.Reader).Size":
		ret(StrLen(x.ghostGet(st, "rdc", SStr, arg(0))))
	case "encoding/binary.Write":
		wr, ord, data := arg(0), x.orderOf(arg(1)), arg(2)
		n, ok := intVal(ITag(data))
		if !ok || n.Sign() <= 0 {
			unsup("binary.Write of an unknown type")
		}
		t := w.TagType(int(n.Int64()))
		var s *Term
		if sl, ok := t.Underlying().(*types.Slice); ok && tname(sl.Elem()) == "byte" || ok && tname(sl.Elem()) == "uint8" {
			s = x.bytesOf(st, w.Unbox(IVal(data), SSlice))
		} else {
			s = x.encodeVal(ord, w.Unbox(IVal(data), w.SortOf(t)), t)
		}
		x.writeIface(fr, st, wr, s, func(fr *Frame, st *State, n, e *Term) { k(fr, st, Val{T: e}) })
	case "encoding/binary.Read":
		x.binaryRead(fr, st, arg(0), arg(1), arg(2), func(fr *Frame, st *State, e *Term) { k(fr, st, Val{T: e}) })
	case "io.ReadAll":
		x.notes["io.ReadAll gives the content of its reader, a function of the reader"] = true
		s := w.Fun("contentof", SStr, arg(0))
		okc := w.Fun("readok", SBool, arg(0))
		b := x.newBytes(st, s)
		ret(b, ifaceErr(st, okc))
	// ---- sorting
	case "sort.Strings", "slices.Sort[[]string string]":
		sl := arg(0)
		x.permute(st, sl, strTyp, func(a func(i *Term) *Term, i, j *Term) *Term { return x.strLt(a(j), a(i)) })
		k(fr, st, Val{})
	case "sort.Slice", "sort.SliceStable":
		x.sortSlice(fr, st, args, k)
	// ---- regexps
	case "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).MatchString", "(*regexp.Regexp).FindAllString", "(*regexp.Regexp).FindString":
		x.regex(fr, st, f.Name(), args, k)
	// ---- context
	case "context.WithValue":
		c0, key, v := arg(0), arg(1), arg(2)
		x.check(fr, st, And(Not(Eq(ITag(c0), Zero)), Not(Eq(ITag(key), Zero))), "context.WithValue of nil", pos)
		r := MkIface(Int(int64(w.Tag(errType))), st.alloc())
		kk := Bnd("?k", SIface)
		app := x.ctxval(r, kk)
		st.assume(Quant("forall", []*Term{kk}, [][]*Term{{app}}, Eq(app, Ite(Eq(kk, key), v, x.ctxval(c0, kk)))))
		ret(r)
	case "context.Background", "context.TODO":
		r := MkIface(Int(int64(w.Tag(errType))), Int(499999999))
		kk := Bnd("?k", SIface)
		app := x.ctxval(r, kk)
		st.assume(Quant("forall", []*Term{kk}, [][]*Term{{app}}, Eq(app, NilIface)))
		ret(r)
	// ---- sync.Map used as a cache
	case "(*sync.Map).Load":
		m, key := arg(0), arg(1)
		h := x.ghostHeap(st, "smd", arr(SIface, SBool))
		v := x.ghostHeap(st, "smv", arr(SIface, SIface))
		has := Select(selRef(h, m), key)
		ret(Ite(has, Select(selRef(v, m), key), NilIface), has)
	case "(*sync.Map).Store":
		m, key, val := arg(0), arg(1), arg(2)
		h := x.ghostHeap(st, "smd", arr(SIface, SBool))
		v := x.ghostHeap(st, "smv", arr(SIface, SIface))
		x.setHeapRaw(st, "G:smd", h, m, Store(selRef(h, m), key, True))
		x.setHeapRaw(st, "G:smv", v, m, Store(selRef(v, m), key, val))
		k(fr, st, Val{})
	case "golang.org/x/text/language.NewMatcher":
		seq := x.sliceSeq(st, arg(0), f.Signature.Params().At(0).Type())
		r := MkIface(Int(int64(w.Tag(errType))), w.Fun("matcher", SInt, seq))
		st.assume(Eq(w.Fun("matcherlen", SInt, IVal(r)), SLen(arg(0))))
		ret(r)
	case "(*net/http.Request).Cookie":
		x.nilCheck(fr, st, arg(0), "nil request", pos)
		okc := w.Fun("cookieok", SBool, arg(0), arg(1))
		p := w.Fun("cookie", SInt, arg(0), arg(1))
		st.assume(Implies(okc, Lt(Zero, p)))
		st.assume(Implies(Not(okc), Eq(p, Zero)))
		st.assume(Lt(p, st.cur()))
		ret(p, ifaceErr(st, okc))
	case "os.Exit":
		return true // does not return
	default:
		if f.Pkg == nil && f.Object() == nil {
			return false
		}
		if pk := pkgOf(f); pk == nil || !purePkgs[pk.Path()] {
			return false
		}
		if x.V.spec.Contracts[name] != nil {
			return false
		}
		var ts []*Term
		params := recvAndParams(f)
		for i := range args {
			t := arg(i)
			if t.Sort == SSlice {
				t = x.sliceSeq(st, t, params[i])
			}
			ts = append(ts, t)
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 {
			return false
		}
		var out []*Term
		for i := 0; i < rs.Len(); i++ {
			rt := rs.At(i).Type()
			n := name
			if i > 0 {
				n = fmt.Sprintf("%s#%d", name, i)
			}
			if sl, ok := rt.Underlying().(*types.Slice); ok {
				r := st.alloc()
				a := w.Fun(n+"!arr", arr(SInt, w.SortOf(sl.Elem())), ts...)
				l := w.Fun(n+"!len", SInt, ts...)
				st.assume(Le(Zero, l))
				x.setHeap(st, elemHeap(sl.Elem()), sl.Elem(), r, a)
				out = append(out, MkSlice(r, Zero, l, l))
				continue
			}
			out = append(out, x.ext1(st, n, rt, ts...))
		}
		x.notes["external "+name+" is a pure function of its arguments"] = true
		ret(out...)
	}
	return true
}

func (x *Exec) ctxval(c, k *Term) *Term { return x.w.Fun("ctxval", SIface, c, k) }

func lastIndexFact(r, s, sub *Term) *Term {
	found := App("str.contains", SBool, s, sub)
	return And(Implies(Not(found), Eq(r, Int(-1))),
		Implies(found, And(Le(Zero, r), Le(Add(r, StrLen(sub)), StrLen(s)), Eq(Substr(s, r, StrLen(sub)), sub),
			Implies(Lt(Zero, StrLen(sub)), Not(App("str.contains", SBool, Substr(s, Add(r, One), Sub(StrLen(s), Add(r, One))), sub))))))
}

func (x *Exec) trim(st *State, s *Term) *Term {
	if v, ok := strVal(s); ok {
		return Str(strings.TrimSpace(v))
	}
	return x.w.Fun("trimspace", SStr, s)
}
func (x *Exec) quoteFact(st *State, s *Term) {}

func (x *Exec) splitN(s, sep *Term) *Term { return x.w.Fun("splitn", SInt, s, sep) }
func (x *Exec) splitArr(s, sep *Term) *Term {
	return x.w.Fun("splitarr", arr(SInt, SStr), s, sep)
}
func (x *Exec) split(st *State, s, sep *Term) *Term {
	n := x.splitN(s, sep)
	if p, ok := strVal(sep); ok && p != "" {
		st.assume(Le(One, n))
		st.assume(Implies(Not(App("str.contains", SBool, s, sep)), And(Eq(n, One), Eq(Select(x.splitArr(s, sep), Zero), s))))
	} else {
		st.assume(Le(Zero, n))
	}
	return x.newStrSlice(st, x.splitArr(s, sep), n)
}
func (x *Exec) join(st *State, l, sep *Term) *Term {
	a := selRef(x.heapFor(st, elemHeap(strTyp), strTyp), SRef(l))
	if n, ok := intVal(SLen(l)); ok && n.Int64() <= 40 {
		var ps []*Term
		for i := int64(0); i < n.Int64(); i++ {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, Select(a, Add(SOff(l), Int(i))))
		}
		return Concat(ps...)
	}
	if v, ok := strVal(sep); ok && v == "" {
		return x.w.Fun("catS", SStr, a, SOff(l), SLen(l))
	}
	return x.w.Fun("joinS", SStr, a, SOff(l), SLen(l), sep)
}

// permute replaces the window of a slice by a sorted permutation of itself.
func (x *Exec) permute(st *State, sl *Term, el types.Type, greater func(a func(i *Term) *Term, i, j *Term) *Term) {
	es := x.w.SortOf(el)
	hn := elemHeap(el)
	h := x.heapFor(st, hn, el)
	old := selRef(h, SRef(sl))
	na := SymR(x.uniq("sorted"), arr(SInt, es), st.rank())
	p := SymR(x.uniq("perm"), arr(SInt, SInt), st.rank())
	q := SymR(x.uniq("inv"), arr(SInt, SInt), st.rank())
	off, n := SOff(sl), SLen(sl)
	i, j := Bnd("?i", SInt), Bnd("?j", SInt)
	at := func(a *Term) func(k *Term) *Term {
		return func(k *Term) *Term { return App("select", es, a, Add(off, k)) }
	}
	in := func(k *Term) *Term { return And(Le(Zero, k), Lt(k, n)) }
	pi := App("select", SInt, p, i)
	qi := App("select", SInt, q, i)
	st.assume(Quant("forall", []*Term{i}, [][]*Term{{pi}, {at(na)(i)}}, Implies(in(i), And(in(pi), Eq(App("select", SInt, q, pi), i), Eq(at(na)(i), Select(old, Add(off, pi)))))))
	st.assume(Quant("forall", []*Term{i}, [][]*Term{{qi}}, Implies(in(i), And(in(qi), Eq(App("select", SInt, p, qi), i), Eq(at(na)(qi), Select(old, Add(off, i)))))))
	if old.Kind != 'a' || old.Op != "store" {
		st.assume(Quant("forall", []*Term{i}, [][]*Term{{App("select", es, old, Add(off, i))}}, Implies(in(i), And(in(qi), Eq(App("select", SInt, p, qi), i), Eq(at(na)(qi), Select(old, Add(off, i)))))))
	}
	st.assume(Quant("forall", []*Term{i}, [][]*Term{{App("select", es, na, i)}}, Implies(Or(Lt(i, off), Le(Add(off, n), i)), Eq(App("select", es, na, i), Select(old, i)))))
	x.setHeapRaw(st, hn, h, SRef(sl), na)
	g := greater(at(na), i, j)
	st.assume(Quant("forall", []*Term{i, j}, [][]*Term{{at(na)(i), at(na)(j)}}, Implies(And(Le(Zero, i), Lt(i, j), Lt(j, n)), Not(g))))
}

func (x *Exec) sortSlice(fr *Frame, st *State, args []Val, k func(*Frame, *State, Val)) {
	v := x.valTerm(args[0])
	tn, ok := intVal(ITag(v))
	if !ok {
		unsup("sort.Slice of an unknown type")
	}
	t, ok := x.w.TagType(int(tn.Int64())).Underlying().(*types.Slice)
	if !ok {
		unsup("sort.Slice of %s", x.w.TagType(int(tn.Int64())))
	}
	sl := x.w.Unbox(IVal(v), SSlice)
	less := args[1].Fn
	if less == nil {
		less = x.fnOf(args[1].T)
	}
	if less == nil {
		unsup("sort.Slice with an unknown function")
	}
	el := t.Elem()
	// the comparison as a term over two symbolic indices of the sorted window
	x.permute(st, sl, el, func(a func(i *Term) *Term, i, j *Term) *Term {
		si, sj := SymR(x.uniq("ix"), SInt, st.rank()), SymR(x.uniq("jx"), SInt, st.rank())
		s2 := st.clone()
		s2.assume(And(Le(Zero, si), Lt(si, SLen(sl)), Le(Zero, sj), Lt(sj, SLen(sl))))
		// less(j, i) must be false
		g := x.pureApply(s2, less, []*Term{sj, si})
		return Subst(g, map[*Term]*Term{si: i, sj: j})
	})
	k(fr, st, Val{})
}

func (x *Exec) regex(fr *Frame, st *State, m string, args []Val, k func(*Frame, *State, Val)) {
	w := x.w
	pat, ok := x.patternOf(x.valTerm(args[0]))
	if !ok {
		unsup("regexp with unknown pattern")
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		unsup("regexp %q: %v", pat, err)
	}
	P := Str(pat)
	s := x.valTerm(args[1])
	groups := int64(re.NumSubexp() + 1)
	switch m {
	case "MatchString":
		k(fr, st, Val{T: Lt(Zero, w.Fun("rxcount", SInt, P, s))})
		return
	case "FindAllString":
		n := w.Fun("rxcount", SInt, P, s)
		st.assume(Le(Zero, n))
		k(fr, st, Val{T: x.newStrSlice(st, w.Fun("rxall", arr(SInt, SStr), P, s), n)})
		return
	case "FindString":
		k(fr, st, Val{T: Select(w.Fun("rxgroups", arr(SInt, SStr), P, s), Zero)})
		return
	}
	n := w.Fun("rxcount", SInt, P, s)
	st.assume(Le(Zero, n))
	g := w.Fun("rxgroups", arr(SInt, SStr), P, s)
	if m == "FindStringSubmatch" {
		x.fork(fr, st, Lt(Zero, n), func(fr *Frame, st *State, b bool) {
			if b {
				k(fr, st, Val{T: x.newStrSlice(st, g, Int(groups))})
			} else {
				k(fr, st, Val{T: NilSlice})
			}
		})
		return
	}
	if lim, ok := intVal(x.valTerm(args[2])); !ok || lim.Sign() >= 0 {
		unsup("FindAllStringSubmatch with a limit")
	}
	first := x.newStrSlice(st, g, Int(groups))
	el := types.NewSlice(strTyp)
	rest := SymR(x.uniq("matches"), arr(SInt, SSlice), st.rank())
	r := st.alloc()
	x.setHeap(st, elemHeap(el), el, r, Store(rest, Zero, first))
	k(fr, st, Val{T: Ite(Eq(n, Zero), NilSlice, MkSlice(r, Zero, n, n))})
}

// invokeExtern models interface methods of types outside the repository.
func (x *Exec) invokeExtern(fr *Frame, st *State, c *ssa.CallCommon, recv *Term, args []Val, k func(*Frame, *State, Val)) bool {
	w := x.w
	arg := func(i int) *Term { return x.valTerm(args[i]) }
	itn := types.TypeString(c.Value.Type(), nil)
	m := c.Method.Name()
	full := itn + "." + m
	switch {
	case m == "Write" && (itn == "io.Writer" || x.isBuffer(recv)):
		x.trusted[full] = true
		x.writeIface(fr, st, recv, x.bytesOf(st, arg(1)), func(fr *Frame, st *State, n, e *Term) {
			k(fr, st, Val{Tup: []Val{{T: n}, {T: e}}})
		})
		return true
	case itn == "context.Context" && m == "Value":
		x.trusted[full] = true
		r := x.ctxval(recv, arg(1))
		x.typeFacts(st, r, c.Signature().Results().At(0).Type(), 1)
		k(fr, st, Val{T: r})
		return true
	case itn == "golang.org/x/text/language.Matcher" && m == "Match":
		x.trusted[full] = true
		sl := arg(1)
		seq := x.sliceSeq(st, sl, c.Signature().Params().At(0).Type())
		idx := w.Fun("matchindex", SInt, IVal(recv), seq)
		st.assume(Le(Zero, idx))
		st.assume(Implies(Lt(Zero, w.Fun("matcherlen", SInt, IVal(recv))), Lt(idx, w.Fun("matcherlen", SInt, IVal(recv)))))
		rs := c.Signature().Results()
		k(fr, st, Val{Tup: []Val{{T: w.Fun("matchtag", w.SortOf(rs.At(0).Type()), IVal(recv), seq)}, {T: idx}, {T: w.Fun("matchconf", w.SortOf(rs.At(2).Type()), IVal(recv), seq)}}})
		return true
	case itn == "error" && m == "Error":
		k(fr, st, Val{T: x.fmtVerb('v', recv)})
		return true
	}
	if cn := c.Value.Type(); !isRepoType(cn) {
		if _, ok := x.V.spec.Contracts["iface "+tname(cn)+"."+m]; ok {
			return false
		}
		rs := c.Signature().Results()
		if rs.Len() == 1 && len(x.V.spec.Impl[tname(cn)]) == 0 {
			// an observer of an external interface: a pure function
			x.notes["external method "+full+" is a pure function of its receiver and arguments"] = true
			var ts []*Term
			ts = append(ts, recv)
			for i := range args[1:] {
				t := arg(i + 1)
				if t.Sort == SSlice {
					t = x.sliceSeq(st, t, c.Signature().Params().At(i).Type())
				}
				ts = append(ts, t)
			}
			r := w.Fun("invoke!"+m, w.SortOf(rs.At(0).Type()), ts...)
			x.typeFacts(st, r, rs.At(0).Type(), 1)
			k(fr, st, Val{T: r})
			return true
		}
	}
	return false
}

func isRepoType(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg() != nil && isRepo(n.Obj().Pkg())
	}
	return false
}

// externMods: heaps a model of an external function may write.
func (x *Exec) externMods(f *ssa.Function, c *ssa.CallCommon, m modSet) {
	name := f.String()
	boxed := func(i int) types.Type {
		if i < len(c.Args) {
			if mi, ok := c.Args[i].(*ssa.MakeInterface); ok {
				return mi.X.Type()
			}
		}
		return nil
	}
	switch name {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "encoding/binary.Write", "(*bytes.Buffer).WriteTo":
		x.ghostMods(m, "buf", "out")
	case "io.ReadAll":
		m[elemHeap(types.Typ[types.Uint8])] = heapArr(arr(SInt, SInt))
	case "encoding/binary.Read":
		x.ghostMods(m, "rdp")
		if t := boxed(2); t != nil {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				x.typeHeaps(p.Elem(), m)
				t = p.Elem()
			}
			if s, ok := t.Underlying().(*types.Slice); ok {
				m[elemHeap(s.Elem())] = heapArr(arr(SInt, x.w.SortOf(s.Elem())))
			}
		}
	case "(*bytes.Reader).Seek":
		x.ghostMods(m, "rdp")
	case "bytes.NewReader", "strings.NewReader":
		x.ghostMods(m, "rdc", "rdp")
	case "sort.Slice", "sort.SliceStable":
		if t := boxed(0); t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				m[elemHeap(s.Elem())] = heapArr(arr(SInt, x.w.SortOf(s.Elem())))
			}
		}
	case "sort.Strings", "slices.Sort[[]string string]":
		m[elemHeap(strTyp)] = heapArr(arr(SInt, SStr))
	case "(*sync.Map).Store":
		m["G:smd"] = heapArr(arr(SIface, SBool))
		m["G:smv"] = heapArr(arr(SIface, SIface))
	case "(*regexp.Regexp).FindAllStringSubmatch":
		m[elemHeap(strTyp)] = heapArr(arr(SInt, SStr))
	}
	if strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "bytes.NewBuffer") {
		x.ghostMods(m, "buf")
	}
	if con := x.V.spec.Contracts[name]; con != nil {
		for _, h := range con.Heaps {
			if s, ok := x.heapSorts[h]; ok {
				m[h] = s
			}
		}
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if s, ok := rs.At(i).Type().Underlying().(*types.Slice); ok {
			m[elemHeap(s.Elem())] = heapArr(arr(SInt, x.w.SortOf(s.Elem())))
		}
	}
}

var _ = big.NewInt
