package main

import (
	"fmt"
	"io/fs"
	"sort"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/translator"
)

type stringer struct{ n int }

func (s stringer) String() string { return fmt.Sprint("st", s.n) }

// Setup is a handle built from sources.
type Setup struct {
	Srcs   map[string]Source
	Domain string
	Locale string
}

var domNames = []string{"default", "d1", "d2", "", "zh_CN"}

func (h *H) setup() Setup {
	s := Setup{Srcs: map[string]Source{}}
	for k := 1 + h.Intn(3); k > 0; k-- {
		s.Srcs[pick(h, domNames)] = h.source(3)
	}
	s.Domain = pick(h, domNames)
	l := pick(h, locNames)
	for _, d := range s.Srcs {
		for n := range d.Cats {
			if h.chance(0.6) {
				l = n
			}
		}
	}
	for d := range s.Srcs {
		if h.chance(0.4) {
			s.Domain = d
		}
	}
	s.Locale = l
	return s
}

func (s Setup) build() (*t.Translations, *Handle) {
	ts, m := t.NewTranslations(), newHandle()
	for _, d := range sortedKeys(s.Srcs) {
		src := s.Srcs[d]
		ts.BindFS(d, src.fs())
		if k := src.kept(); k != nil {
			m.Domains[d] = k
		}
	}
	ts.SetDomain(s.Domain)
	ts.SetLocale(s.Locale)
	m.Domain, m.Locale = s.Domain, s.Locale
	return ts, m
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// query picks a message, mostly one the selected catalog holds.
func (h *H) query(c *Cat) (ctxt, id, id2 string) {
	ctxt, id, id2 = pick(h, ctxts), pick(h, ids), pick(h, ids2)
	if c != nil && len(c.Es) > 0 && h.chance(0.75) {
		e := pick(h, c.Es)
		ctxt, id = e.Ctxt, e.ID
		if e.ID2 != "" && h.chance(0.7) {
			id2 = e.ID2
		}
	}
	if h.chance(0.2) {
		id2 = ""
	}
	if h.chance(0.03) {
		ctxt, id = "", ""
	}
	return
}

func (c *Cat) texts(ctxt, id, id2 string) []string {
	out := []string{id, id2}
	if c != nil {
		if e := c.find(ctxt, id); e != nil {
			out = append(out, e.Str)
			out = append(out, e.StrN...)
		}
	}
	return out
}

func init() {
	reg("C01", "random handles (several domains and languages, po/mo, random entries), random singular lookups; non-trivial: distinct (handle, query)", func(h *H) {
		for h.more() {
			s := h.setup()
			type in struct {
				Setup      Setup
				Ctxt, ID   string
				Args       string
				Via        string
			}
			var ts *t.Translations
			var m *Handle
			h.run(s, func() { ts, m = s.build() })
			if ts == nil {
				continue
			}
			for k := 0; k < 12; k++ {
				ctxt, id, _ := h.query(m.cat())
				args := h.fit(m.cat().texts(ctxt, id, "")...)
				i := in{s, ctxt, id, fmt.Sprintf("%#v", args), "Translations.X"}
				h.run(i, func() { h.eq(i, "X", ts.X(ctxt, id, args...), m.cat().x(ctxt, id, args)) })
				if ctxt == "" {
					i.Via = "Translations.T"
					h.run(i, func() { h.eq(i, "T", ts.T(id, args...), m.cat().x("", id, args)) })
				}
			}
			c := h.cat("de")
			fl := c.file()
			for k := 0; k < 4; k++ {
				ctxt, id, _ := h.query(c)
				args := h.fit(c.texts(ctxt, id, "")...)
				i := struct {
					Cat      *Cat
					Ctxt, ID string
					Args     string
				}{c, ctxt, id, fmt.Sprintf("%#v", args)}
				h.run(i, func() { h.eq(i, "File.X", fl.X(ctxt, id, args...), c.x(ctxt, id, args)) })
			}
			h.run("empty file", func() {
				h.eq("empty", "File.X of an empty catalog", new(translator.File).X("c", "%d", 3), "3")
				h.eq("noop", "NoopTranslator.X", t.NoopTranslator().X("c", "a %s b", "x", 1), "a x b")
			})
		}
	})
	reg("C02", "random catalogs x plural rules (valid, invalid, failing) x n (small, negative, extreme), random numbers of forms; non-trivial: distinct (catalog, query, n)", func(h *H) {
		for h.more() {
			c := h.cat("de")
			fl := c.file()
			type in struct {
				Cat          *Cat
				Rule         string
				Ctxt, ID, ID2 string
				N            int64
				Args         string
			}
			for k := 0; k < 30; k++ {
				ctxt, id, id2 := h.query(c)
				n := pick(h, nvals)
				args := h.fit(c.texts(ctxt, id, id2)...)
				i := in{c, rules[c.Rule].Text, ctxt, id, id2, n, fmt.Sprintf("%#v", args)}
				h.run(i, func() {
					h.eq(i, "File.XN64", fl.XN64(ctxt, id, id2, n, args...), c.xn(ctxt, id, id2, n, args))
				})
			}
			s := h.setup()
			var ts *t.Translations
			var m *Handle
			h.run(s, func() { ts, m = s.build() })
			if ts == nil {
				continue
			}
			for k := 0; k < 12; k++ {
				ctxt, id, id2 := h.query(m.cat())
				n := pick(h, nvals)
				args := h.fit(m.cat().texts(ctxt, id, id2)...)
				i := struct {
					S             Setup
					Ctxt, ID, ID2 string
					N             int64
					Args          string
				}{s, ctxt, id, id2, n, fmt.Sprintf("%#v", args)}
				h.run(i, func() {
					h.eq(i, "Translations.XN64", ts.XN64(ctxt, id, id2, n, args...), m.cat().xn(ctxt, id, id2, n, args))
				})
			}
		}
	})
	reg("C05", "random handles and arguments, every shorthand as method and package function against the full lookup; non-trivial: distinct (handle, arguments)", func(h *H) {
		for h.more() {
			s := h.setup()
			var ts *t.Translations
			h.run(s, func() { ts, _ = s.build() })
			if ts == nil {
				continue
			}
			t.SetGlobal(ts)
			for k := 0; k < 10; k++ {
				ctxt, id, id2 := h.query(s.Srcs[s.Domain].kept()[s.Locale])
				n := pick(h, nvals)
				args := h.args()
				i := struct {
					S             Setup
					Ctxt, ID, ID2 string
					N             int64
					Args          string
				}{s, ctxt, id, id2, n, fmt.Sprintf("%#v", args)}
				h.run(i, func() {
					e := func(w, got, want string) { h.eq(i, w, got, want) }
					ni := int(n)
					e("ts.T", ts.T(id, args...), ts.X("", id, args...))
					e("ts.N", ts.N(id, id2, ni, args...), ts.XN64("", id, id2, n, args...))
					e("ts.N64", ts.N64(id, id2, n, args...), ts.XN64("", id, id2, n, args...))
					e("ts.N1", ts.N1(id, ni, args...), ts.XN64("", id, "", n, args...))
					e("ts.N1_64", ts.N1_64(id, n, args...), ts.XN64("", id, "", n, args...))
					e("ts.XN", ts.XN(ctxt, id, id2, ni, args...), ts.XN64(ctxt, id, id2, n, args...))
					e("ts.XN1", ts.XN1(ctxt, id, ni, args...), ts.XN64(ctxt, id, "", n, args...))
					e("ts.XN1_64", ts.XN1_64(ctxt, id, n, args...), ts.XN64(ctxt, id, "", n, args...))
					e("T", t.T(id, args...), ts.X("", id, args...))
					e("N", t.N(id, id2, ni, args...), ts.XN64("", id, id2, n, args...))
					e("N64", t.N64(id, id2, n, args...), ts.XN64("", id, id2, n, args...))
					e("N1", t.N1(id, ni, args...), ts.XN64("", id, "", n, args...))
					e("N1_64", t.N1_64(id, n, args...), ts.XN64("", id, "", n, args...))
					e("X", t.X(ctxt, id, args...), ts.X(ctxt, id, args...))
					e("XN", t.XN(ctxt, id, id2, ni, args...), ts.XN64(ctxt, id, id2, n, args...))
					e("XN64", t.XN64(ctxt, id, id2, n, args...), ts.XN64(ctxt, id, id2, n, args...))
					e("XN1", t.XN1(ctxt, id, ni, args...), ts.XN64(ctxt, id, "", n, args...))
					e("XN1_64", t.XN1_64(ctxt, id, n, args...), ts.XN64(ctxt, id, "", n, args...))
					e("Mark.T", t.Mark.T(id), id)
					a, b := t.Mark.N(id, id2)
					e("Mark.N", a+"|"+b, id+"|"+id2)
					a, b = t.Mark.X(ctxt, id)
					e("Mark.X", a+"|"+b, ctxt+"|"+id)
					a, b, c := t.Mark.XN(ctxt, id, id2)
					e("Mark.XN", a+"|"+b+"|"+c, ctxt+"|"+id+"|"+id2)
				})
			}
			t.SetGlobal(t.NewTranslations())
		}
	})
	reg("C06", "random formats (verbs, flags, widths, indexes, literal percent) with enough, surplus and no arguments, caller slices with spare capacity; non-trivial: distinct (format, arguments)", func(h *H) {
		parts := []string{"%d", "%s", "%v", "%q", "%5d", "%-5s|", "%x", "%%", "text ", "%[1]v", "%[2]v", "%[1]d %d", "%T", "%*d", "%.2f", "名", "%", "%!", "%!(EXTRA", " ", "\n", "%+v", "%#v", "%08.3f", "%c", "%t"}
		pool := []any{1, int64(2), "s", 3.5, nil, true, 'x', []string{"a"}, struct{ A int }{4}, -3, "", fs.ErrNotExist, fmt.Errorf("e%d", 1), stringer{3}, []byte("b"), 1.0, uint8(200)}
		for h.more() {
			var b strings.Builder
			for k := h.Intn(4); k > 0; k-- {
				b.WriteString(pick(h, parts))
			}
			format := b.String()
			n := h.Intn(5)
			back := make([]any, n+3)
			for i := range back {
				back[i] = pick(h, pool)
			}
			off := h.Intn(2)
			args := back[off : off+n : off+n+h.Intn(3)]
			keep := append([]any(nil), back...)
			same := func() bool {
				for i := range back {
					if fmt.Sprintf("%T%#v", back[i], back[i]) != fmt.Sprintf("%T%#v", keep[i], keep[i]) {
						return false
					}
				}
				return true
			}
			i := struct {
				Format string
				Args   string
			}{format, fmt.Sprintf("%#v", args)}
			c := &Cat{Lang: "de", Rule: 2, Es: []E{{ID: "k", Str: format, Ctxt: "c"}, {ID: "p", ID2: "ps", Plural: true, StrN: []string{format, format}}}}
			fl := c.file()
			h.run(i, func() {
				if n == 0 {
					h.eq(i, "Format without arguments", f.Format(format, args...), format)
				} else if fmtOK(format, args) {
					h.eq(i, "Format", f.Format(format, args...), wantFmt(format, args))
				} else {
					f.Format(format, args...)
				}
				if format != "" && (n == 0 || fmtOK(format, args)) {
					h.eq(i, "File.X", fl.X("c", "k", args...), wantFmt(format, args))
					h.eq(i, "File.XN64", fl.XN64("", "p", "ps", 1, args...), wantFmt(format, args))
					h.eq(i, "DefaultPlural", f.DefaultPlural(format, "pl", 1, args...), wantFmt(format, args))
					h.eq(i, "DefaultPlural", f.DefaultPlural("si", format, 2, args...), wantFmt(format, args))
					h.eq(i, "T", t.T(format, args...), wantFmt(format, args))
					h.eq(i, "noop", t.NoopTranslator().XN64("", "s", format, 0, args...), wantFmt(format, args))
				}
				h.ok(i, "the caller's argument memory is unchanged", same())
			})
		}
	})
	reg("C13", "random sequences of AddEntry (headers and messages), GetHeader, Lang and plural lookups on one catalog against a model; non-trivial: distinct sequences", func(h *H) {
		heads := []string{"", "Language: zh_CN\n", "Language: de\nPlural-Forms: nplurals=2; plural=n!=1;\n", "Plural-Forms: nplurals=3; plural=n%3;\nLanguage:  fr  \nLanguage: en\n",
			"X: y: z\nno colon\nLanguage:nospace\n", "Plural-Forms: nplurals=1; plural=0;\nPlural-Forms: nplurals=2; plural=n!=1;\n", " Language : de\n: v\nX: \n", "language: xx\n\nLanguage: ja"}
		rule := func(v string) int {
			for i, r := range rules {
				if r.Text == v {
					return i
				}
			}
			return map[string]int{"nplurals=2; plural=n!=1;": 2}[v]
		}
		for h.more() {
			fl := new(translator.File)
			model := map[[2]string]*E{}
			hdr := func(name string) (string, bool) {
				e := model[[2]string{"", ""}]
				if e == nil {
					return "", false
				}
				for _, l := range strings.Split(e.Str, "\n") {
					if k := strings.Index(l, ": "); k >= 0 && strings.TrimSpace(l[:k]) == name {
						return strings.TrimSpace(l[k+2:]), true
					}
				}
				return "", false
			}
			var log []string
			h.run(&log, func() {
				for k := 2 + h.Intn(12); k > 0; k-- {
					switch h.Intn(6) {
					case 0, 1:
						e := h.ent()
						model[[2]string{e.Ctxt, e.ID}] = &e
						log = append(log, fmt.Sprintf("AddEntry%+v", e))
						fl.AddEntry(e.entry())
					case 2:
						e := E{Str: pick(h, heads)}
						if h.chance(0.2) {
							e.Ctxt = "menu"
						}
						model[[2]string{e.Ctxt, ""}] = &e
						log = append(log, fmt.Sprintf("AddEntry header ctxt=%q %q", e.Ctxt, e.Str))
						fl.AddEntry(e.entry())
					case 3:
						name := pick(h, []string{"Language", "Plural-Forms", "X", "", "language", "no colon"})
						v, ok := fl.GetHeader(name)
						log = append(log, "GetHeader "+name)
						wv, wok := hdr(name)
						h.eq(log, "GetHeader", fmt.Sprint(v, ok), fmt.Sprint(wv, wok))
					case 4:
						log = append(log, "Lang")
						w, _ := hdr("Language")
						h.eq(log, "Lang", fl.Lang(), w)
					case 5:
						pf, _ := hdr("Plural-Forms")
						ctxt, id, id2 := pick(h, ctxts), pick(h, ids), pick(h, ids2)
						for kk := range model {
							if h.chance(0.5) {
								ctxt, id = kk[0], kk[1]
							}
						}
						n := pick(h, nvals)
						c := &Cat{Rule: rule(pf)}
						log = append(log, fmt.Sprintf("XN64 %q %q %q %d", ctxt, id, id2, n))
						want := wantSource(id, id2, n, nil)
						wx := id
						if e := model[[2]string{ctxt, id}]; e != nil {
							if e.Str != "" {
								wx = e.Str
							}
							c.Es = []E{*e}
							if id != "" {
								want = c.xn(ctxt, id, id2, n, nil)
							} else {
								want = wx
							}
						}
						h.eq(log, "XN64", fl.XN64(ctxt, id, id2, n), want)
						h.eq(log, "X", fl.X(ctxt, id), wx)
					}
				}
				es := fl.SortedEntry()
				h.eq(log, "number of entries", len(es), len(model))
				for _, e := range es {
					w := model[[2]string{e.MsgCtxt, e.MsgID}]
					if h.ok(log, "entry known", w != nil) {
						h.eq(log, "entry", fmt.Sprint(e.MsgStr, e.MsgStrN, e.MsgID2), fmt.Sprint(w.Str, w.StrN, w.ID2))
					}
				}
			})
		}
	})
}
