package main

import (
	"context"
	"fmt"
	"io/fs"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing/fstest"

	"github.com/youthlin/t"
	"golang.org/x/text/language"
)

// same compares everything observable of a handle with its model.
func (h *H) same(in any, who string, ts *t.Translations, m *Handle) {
	h.eq(in, who+": Locale", ts.Locale(), m.Locale)
	h.eq(in, who+": Domain", ts.Domain(), m.Domain)
	h.eq(in, who+": SourceCodeLocale", ts.SourceCodeLocale(), m.Source)
	ds := ts.Domains()
	sort.Strings(ds)
	h.eq(in, who+": Domains", fmt.Sprint(ds), fmt.Sprint(sortedKeys(m.Domains)))
	for _, d := range append(append([]string{}, domNames...), "nope") {
		_, want := m.Domains[d]
		h.eq(in, who+": HasDomain "+d, ts.HasDomain(d), want)
		_, ok := ts.Get(d)
		h.eq(in, who+": Get "+d, ok, want)
	}
	h.eq(in, who+": UsedLocale", ts.UsedLocale(), m.used())
	h.eq(in, who+": Locales", fmt.Sprint(ts.Locales()), fmt.Sprint(m.locales()))
	for d, ls := range m.Domains {
		v := ts.D(d)
		for l, c := range ls {
			w := v.L(l)
			for i, e := range c.Es {
				if i < 3 {
					h.eq(in, fmt.Sprintf("%s: X in %s/%s", who, d, l), w.X(e.Ctxt, e.ID), c.x(e.Ctxt, e.ID, nil))
					h.eq(in, fmt.Sprintf("%s: XN64 in %s/%s", who, d, l), w.XN64(e.Ctxt, e.ID, e.ID2, 2), c.xn(e.Ctxt, e.ID, e.ID2, 2, nil))
				}
			}
		}
	}
}

func (m *Handle) locales() []string {
	set := map[string]bool{m.Source: true}
	for l := range m.Domains[m.Domain] {
		set[l] = true
	}
	return sortedKeys(set)
}

func isIn(s string, xs []string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// step applies one random mutation to a handle and its model.
func (h *H) step(ts *t.Translations, m *Handle, pkg bool) string {
	switch h.Intn(8) {
	case 0:
		d := pick(h, domNames)
		if pkg {
			t.SetDomain(d)
		} else {
			ts.SetDomain(d)
		}
		m.Domain = d
		return "SetDomain " + d
	case 1:
		l := pick(h, locNames)
		v := pick(h, locVariants[l])
		if h.chance(0.1) {
			l, v = sysLoc, ""
		}
		if pkg {
			t.SetLocale(v)
		} else {
			ts.SetLocale(v)
		}
		m.Locale = l
		return "SetLocale " + v
	case 2:
		l := pick(h, locNames)
		v := pick(h, locVariants[l])
		if pkg {
			t.SetSourceCodeLocale(v)
		} else {
			ts.SetSourceCodeLocale(v)
		}
		m.Source = l
		return "SetSourceCodeLocale " + v
	case 3, 4, 5:
		d := pick(h, domNames)
		s := h.source(2)
		if pkg && h.chance(0.3) {
			d = m.Domain
			t.LoadFS(s.fs())
		} else if pkg {
			t.BindFS(d, s.fs())
		} else {
			ts.BindFS(d, s.fs())
		}
		if k := s.kept(); k != nil {
			m.Domains[d] = k
		}
		return fmt.Sprintf("BindFS %q %v kinds %v bad %v", d, sortedKeys(s.Cats), s.Kind, s.Bad)
	case 6:
		d := pick(h, domNames)
		_, had := m.Domains[d]
		want := d != "" && had
		var got bool
		if pkg {
			got = t.RemoveDomain(d)
		} else {
			got = ts.RemoveDomain(d)
		}
		if want {
			delete(m.Domains, d)
			if m.Domain == d {
				m.Domain = "default"
			}
		}
		h.eq("RemoveDomain "+d, "RemoveDomain result", got, want)
		return "RemoveDomain " + d
	default:
		if h.chance(0.5) {
			return "-"
		}
		if pkg {
			t.ClearDomains()
		} else {
			ts.ClearDomains()
		}
		m.Domains = map[string]map[string]*Cat{}
		m.Domain = "default"
		return "ClearDomains"
	}
}

type errFS struct {
	fstest.MapFS
	deny map[string]bool
}

func (e errFS) Open(name string) (fs.File, error) {
	if e.deny[name] {
		return nil, fs.ErrPermission
	}
	return e.MapFS.Open(name)
}

func init() {
	reg("C07", "random handles; derive with D, L, Global or WithContext; random mutations of either; both compared with independent models; non-trivial: distinct sequences", func(h *H) {
		for h.more() {
			var log []string
			h.run(&log, func() {
				ts, m := t.NewTranslations(), newHandle()
				for k := h.Intn(6); k > 0; k-- {
					log = append(log, h.step(ts, m, false))
				}
				m2 := m.clone()
				var r *t.Translations
				switch h.Intn(6) {
				case 0:
					m2.Domain = pick(h, domNames)
					r = ts.D(m2.Domain)
					log = append(log, "D "+m2.Domain)
				case 1:
					l := pick(h, locNames)
					v := pick(h, locVariants[l])
					m2.Locale = l
					if h.chance(0.2) {
						m2.Locale, v = sysLoc, ""
					}
					r = ts.L(v)
					log = append(log, "L "+v)
				case 2:
					t.SetGlobal(ts)
					r = t.Global()
					log = append(log, "Global")
				case 3:
					t.SetGlobal(ts)
					m2.Domain = pick(h, domNames)
					r = t.D(m2.Domain)
					log = append(log, "package D")
				case 4:
					t.SetGlobal(ts)
					m2.Locale = pick(h, locNames)
					r = t.L(m2.Locale)
					log = append(log, "package L")
				default:
					t.SetGlobal(ts)
					ctx := context.Background()
					if h.chance(0.6) {
						m2.Locale = pick(h, locNames)
						ctx = t.SetCtxLocale(ctx, pick(h, locVariants[m2.Locale]))
					}
					if h.chance(0.6) {
						m2.Domain = pick(h, domNames)
						ctx = t.SetCtxDomain(ctx, m2.Domain)
					}
					r = t.WithContext(ctx)
					log = append(log, "WithContext")
				}
				h.same(&log, "origin after deriving", ts, m)
				h.same(&log, "derived", r, m2)
				for k := 1 + h.Intn(4); k > 0; k-- {
					if h.chance(0.5) {
						log = append(log, "origin."+h.step(ts, m, false))
					} else {
						log = append(log, "derived."+h.step(r, m2, false))
					}
				}
				h.same(&log, "origin", ts, m)
				h.same(&log, "derived", r, m2)
			})
			t.SetGlobal(t.NewTranslations())
		}
	})
	reg("C08", "random histories of Bind, SetDomain, RemoveDomain, ClearDomains ... on a handle and on the package functions against a model; non-trivial: distinct histories", func(h *H) {
		dir := os.Getenv("VERIF_SCRATCH")
		for h.more() {
			var log []string
			h.run(&log, func() {
				ts, m := t.NewTranslations(), newHandle()
				pkg := h.chance(0.5)
				log = append(log, fmt.Sprint("package level: ", pkg))
				t.SetGlobal(ts)
				other, om := t.NewTranslations(), newHandle()
				if pkg {
					h.eq(&log, "Domain", t.Domain(), m.Domain)
				}
				for k := 2 + h.Intn(8); k > 0; k-- {
					log = append(log, h.step(ts, m, pkg))
					if pkg {
						h.eq(&log, "Domain()", t.Domain(), m.Domain)
						h.eq(&log, "Locale()", t.Locale(), m.Locale)
						h.eq(&log, "SourceCodeLocale()", t.SourceCodeLocale(), m.Source)
						h.eq(&log, "UsedLocale()", t.UsedLocale(), m.used())
						h.eq(&log, "Locales()", fmt.Sprint(t.Locales()), fmt.Sprint(m.locales()))
						ds := t.Domains()
						sort.Strings(ds)
						h.eq(&log, "Domains()", fmt.Sprint(ds), fmt.Sprint(sortedKeys(m.Domains)))
						for _, d := range domNames {
							_, w := m.Domains[d]
							h.eq(&log, "HasDomain()", t.HasDomain(d), w)
						}
					}
					if h.chance(0.5) {
						h.same(&log, "handle", ts, m)
					}
				}
				h.same(&log, "handle", ts, m)
				h.same(&log, "unrelated handle", other, om)
				if dir != "" && h.chance(0.1) {
					d, err := os.MkdirTemp(dir, "l")
					if err != nil {
						return
					}
					defer os.RemoveAll(d)
					c := h.cat("zh-CN").kept()
					p := filepath.Join(d, "x.po")
					os.WriteFile(p, c.po(), 0600)
					if h.chance(0.5) {
						p = d
					}
					if h.chance(0.5) {
						t.Bind("bound", p)
						m.Domains["bound"] = map[string]*Cat{"zh_CN": c}
						log = append(log, "Bind "+p)
					} else {
						t.Load(p)
						m.Domains[m.Domain] = map[string]*Cat{"zh_CN": c}
						log = append(log, "Load "+p)
					}
					t.Bind("d1", filepath.Join(d, "nowhere"))
					log = append(log, "Bind d1 nowhere")
					h.same(&log, "handle after Bind from disk", ts, m)
				}
			})
			t.SetGlobal(t.NewTranslations())
		}
	})
	reg("C09", "random file systems of .mo/.po/other files (well formed, malformed, unreadable, nested, upper case names, colliding languages); non-trivial: distinct file systems", func(h *H) {
		for h.more() {
			type file struct {
				Name, Kind, Lang string
				Cat              *Cat
				Deny             bool
			}
			var files []file
			m := errFS{fstest.MapFS{}, map[string]bool{}}
			names := []string{"a", "b", "c", "m", "z", "zz", "sub/a", "sub/b", "sub/deep/q", "a.po.d/x", "dir.mo/y"}
			used := map[string]bool{}
			for k := h.Intn(7); k > 0; k-- {
				f := file{Kind: pick(h, []string{"po", "po", "mo", "mo", "mobe", "badpo", "badmo", "txt", "poo", "PO", "nolang", "popo", "tpo"})}
				ext := map[string]string{"po": ".po", "mo": ".mo", "mobe": ".mo", "badpo": ".po", "badmo": ".mo", "txt": ".txt", "poo": ".poo", "PO": ".PO", "nolang": ".po", "popo": ".mo.po", "tpo": "_po"}[f.Kind]
				f.Name = pick(h, names) + ext
				if used[f.Name] {
					continue
				}
				used[f.Name] = true
				f.Lang = pick(h, locNames[:3])
				f.Cat = &Cat{Lang: pick(h, locVariants[f.Lang]), Rule: 2, Es: []E{{ID: "who", Str: f.Name}}}
				f.Deny = h.chance(0.1)
				switch f.Kind {
				case "po", "txt", "poo", "PO", "popo", "tpo":
					m.MapFS[f.Name] = &fstest.MapFile{Data: f.Cat.po()}
				case "mo":
					m.MapFS[f.Name] = &fstest.MapFile{Data: f.Cat.mo(false)}
				case "mobe":
					m.MapFS[f.Name] = &fstest.MapFile{Data: f.Cat.mo(true)}
				case "badpo":
					m.MapFS[f.Name] = &fstest.MapFile{Data: append(f.Cat.po(), "\nmsgid \"x\"\nmsgstr what"...)}
				case "badmo":
					m.MapFS[f.Name] = &fstest.MapFile{Data: f.Cat.mo(false)[:40]}
				case "nolang":
					f.Cat.Lang = ""
					m.MapFS[f.Name] = &fstest.MapFile{Data: f.Cat.po()}
				}
				if f.Deny {
					m.deny[f.Name] = true
				}
				files = append(files, f)
			}
			// a path that is also a directory prefix of another cannot exist
			ok := true
			for _, a := range files {
				for _, b := range files {
					if strings.HasPrefix(b.Name, a.Name+"/") {
						ok = false
					}
				}
			}
			if !ok {
				continue
			}
			h.run(files, func() {
				loaded := false
				best := map[string]map[string]bool{} // language -> names that may win
				isPo := map[string]bool{}
				for _, f := range files {
					if f.Deny {
						continue
					}
					switch f.Kind {
					case "po", "popo":
						loaded = true
						if !isPo[f.Lang] {
							best[f.Lang] = map[string]bool{}
							isPo[f.Lang] = true
						}
						best[f.Lang][f.Name] = true
					case "mo", "mobe":
						loaded = true
						if !isPo[f.Lang] {
							if best[f.Lang] == nil {
								best[f.Lang] = map[string]bool{}
							}
							best[f.Lang][f.Name] = true
						}
					case "nolang":
						loaded = true
					}
				}
				tr := t.NewTranslation("d")
				h.eq(files, "LoadFS result", tr.LoadFS(m), loaded)
				ts := t.NewTranslations()
				ts.BindFS("d", m)
				h.eq(files, "BindFS binds", ts.HasDomain("d"), loaded)
				for _, l := range locNames {
					tor, got := tr.Get(l)
					h.eq(files, "catalog for "+l, got, best[l] != nil)
					if got && best[l] != nil {
						who := tor.X("", "who")
						h.ok(files, "catalog for "+l+" comes from "+who, best[l][who])
						h.eq(files, "bound catalog", ts.D("d").L(l).T("who"), who)
					}
				}
			})
		}
	})
	reg("C10", "random histories, spelling variants of locales, Locales/UsedLocale/MostMatchLocale of handle and globals against a model; non-trivial: distinct histories", func(h *H) {
		odd := []string{"", "xx", "C", "POSIX", "zh_CN.UTF-8", "en_US@x", "!!", "a-b-c-d", "zz_ZZ", "und", "1234", "sr-Latn", "iw", "in_ID", "tl"}
		for h.more() {
			var log []string
			h.run(&log, func() {
				ts, m := t.NewTranslations(), newHandle()
				t.SetGlobal(ts)
				pkg := h.chance(0.3)
				for k := 1 + h.Intn(7); k > 0; k-- {
					log = append(log, h.step(ts, m, pkg))
				}
				if h.chance(0.5) {
					other := t.NewTranslations()
					other.SetLocale(pick(h, locNames))
					t.SetGlobal(other)
					pkg = false
				}
				h.eq(&log, "Locale", ts.Locale(), m.Locale)
				h.eq(&log, "UsedLocale", ts.UsedLocale(), m.used())
				ls := ts.Locales()
				h.eq(&log, "Locales", fmt.Sprint(ls), fmt.Sprint(m.locales()))
				mm := ts.MostMatchLocale()
				h.ok(&log, "MostMatchLocale "+mm+" in Locales", isIn(mm, ls))
				var tags []language.Tag
				for _, l := range ls {
					tags = append(tags, language.Make(l))
				}
				_, ix, _ := language.NewMatcher(tags).Match(language.Make(m.Locale))
				h.eq(&log, "MostMatchLocale", mm, ls[ix])
				if pkg {
					h.eq(&log, "MostMatchLocale()", t.MostMatchLocale(), mm)
				}
				for l, c := range m.Domains[m.Domain] {
					for _, v := range locVariants[l] {
						ts.SetLocale(v)
						h.eq(&log, "SetLocale "+v, ts.Locale(), l)
						h.eq(&log, "UsedLocale after SetLocale "+v, ts.UsedLocale(), l)
						for i, e := range c.Es {
							if i < 2 {
								h.eq(&log, "X after SetLocale "+v, ts.X(e.Ctxt, e.ID), c.x(e.Ctxt, e.ID, nil))
							}
						}
					}
				}
				for _, o := range odd {
					ts.SetLocale(o)
					want := sysLoc
					if o != "" {
						tag := language.Make(o)
						b, _ := tag.Base()
						r, _ := tag.Region()
						want = b.String() + "_" + r.String()
					}
					h.eq(&log, "SetLocale "+o, ts.Locale(), want)
					m.Locale = want
					h.eq(&log, "UsedLocale", ts.UsedLocale(), m.used())
					h.ok(&log, "MostMatchLocale in Locales", isIn(ts.MostMatchLocale(), ts.Locales()))
					h.eq(&log, "L "+o, ts.L(o).Locale(), want)
				}
			})
			t.SetGlobal(t.NewTranslations())
		}
	})
	reg("C11", "random Accept-Language headers (well formed, weighted, garbage), cookies and contexts; non-trivial: distinct requests", func(h *H) {
		parts := []string{"zh-CN", "zh", "en", "de;q=0.8", "fr-FR;q=0.5", "*", "*;q=0.1", "ja", "xx", "", " ", ";q=", "q=1", "en;q=2", "zh-Hant-TW", "\x00", "é", "a-b-c", "pt-BR,pt;q=0.9", "-", "und", "zh_CN", "en-US;q=0", "de;q=0.8;x=y", strings.Repeat("a,", 40), "aaaaaaaaaaaaaaaaaaaaaaaaaaaa"}
		for h.more() {
			var log []string
			h.run(&log, func() {
				ts, m := t.NewTranslations(), newHandle()
				for k := 1 + h.Intn(6); k > 0; k-- {
					log = append(log, h.step(ts, m, false))
				}
				t.SetGlobal(ts)
				r, _ := http.NewRequest("GET", "http://x/", nil)
				var hp []string
				for k := h.Intn(5); k > 0; k-- {
					hp = append(hp, pick(h, parts))
				}
				al := strings.Join(hp, ",")
				if h.chance(0.9) {
					r.Header["Accept-Language"] = []string{al}
				} else {
					al = ""
				}
				name := pick(h, []string{"lang", "lang", "l", "language"})
				cookie, has := "", false
				if h.chance(0.3) {
					cn := pick(h, []string{"lang", "l", "Lang", "language"})
					cv := pick(h, []string{"zh_CN", "xx", "en"})
					r.AddCookie(&http.Cookie{Name: "other", Value: "zz"})
					r.AddCookie(&http.Cookie{Name: cn, Value: cv})
					log = append(log, "cookie "+cn+"="+cv)
					if cn == name {
						cookie, has = cv, true
					}
				}
				log = append(log, fmt.Sprintf("Accept-Language %q configured cookie %q", al, name))
				var got string
				if name == "lang" && h.chance(0.5) {
					got = t.GetUserLang(r)
				} else {
					got = t.GetUserLang(r, t.WithCookieName(name))
				}
				if has {
					h.eq(&log, "GetUserLang", got, cookie)
				} else {
					ls := m.locales()
					h.ok(&log, "GetUserLang "+got+" in Locales", isIn(got, ls))
					var tags []language.Tag
					for _, l := range ls {
						tags = append(tags, language.Make(l))
					}
					acc, _, _ := language.ParseAcceptLanguage(al)
					_, ix, _ := language.NewMatcher(tags).Match(acc...)
					h.eq(&log, "GetUserLang", got, ls[ix])
				}
				// contexts
				ctx := context.WithValue(context.Background(), "lang", "zz")
				wl, wd, hl, hd := "", "", false, false
				for k := h.Intn(4); k > 0; k-- {
					if h.chance(0.5) {
						wl, hl = pick(h, append(locNames, "", "zh")), true
						ctx = t.SetCtxLocale(ctx, wl)
						log = append(log, "SetCtxLocale "+wl)
					} else {
						wd, hd = pick(h, domNames), true
						ctx = t.SetCtxDomain(ctx, wd)
						log = append(log, "SetCtxDomain "+wd)
					}
				}
				gl, ok := t.GetCtxLocale(ctx)
				h.eq(&log, "GetCtxLocale", fmt.Sprint(gl, ok), fmt.Sprint(wl, hl))
				gd, ok := t.GetCtxDomain(ctx)
				h.eq(&log, "GetCtxDomain", fmt.Sprint(gd, ok), fmt.Sprint(wd, hd))
				m2 := m.clone()
				if hl {
					m2.Locale = ts.L(wl).Locale()
				}
				if hd {
					m2.Domain = wd
				}
				h.same(&log, "WithContext", t.WithContext(ctx), m2)
				h.same(&log, "global after WithContext", ts, m)
			})
			t.SetGlobal(t.NewTranslations())
		}
	})
	reg("C12", "random loaded handles; the same queries from 8 goroutines under the race detector, results compared with a run alone; non-trivial: distinct handles", func(h *H) {
		for h.more() {
			s := h.setup()
			h.run(s, func() {
				ts, m := s.build()
				t.SetGlobal(ts)
				type q struct {
					ctxt, id, id2 string
					n             int64
					args          []any
				}
				var qs []q
				for k := 0; k < 8; k++ {
					a, b, c := h.query(m.cat())
					qs = append(qs, q{a, b, c, pick(h, nvals), append(make([]any, 0, 8), h.fit(m.cat().texts(a, b, c)...)...)})
				}
				job := func(direct bool) string {
					var b strings.Builder
					for _, x := range qs {
						fmt.Fprintln(&b, ts.T(x.id, x.args...), ts.X(x.ctxt, x.id, x.args...), ts.N(x.id, x.id2, int(x.n), x.args...), ts.XN64(x.ctxt, x.id, x.id2, x.n, x.args...), ts.N1(x.id, int(x.n), x.args...), ts.XN1_64(x.ctxt, x.id, x.n, x.args...))
						fmt.Fprintln(&b, t.T(x.id, x.args...), t.XN(x.ctxt, x.id, x.id2, int(x.n), x.args...))
						fmt.Fprintln(&b, ts.D("d1").X(x.ctxt, x.id, x.args...), ts.L("de").T(x.id, x.args...), t.D("d1").N64(x.id, x.id2, x.n, x.args...))
					}
					ds := ts.Domains()
					sort.Strings(ds)
					_, ok := ts.Get("d1")
					fmt.Fprintln(&b, ts.UsedLocale(), ts.Locales(), ts.HasDomain("d1"), ds, ok, ts.Domain(), ts.Locale(), ts.SourceCodeLocale(), t.UsedLocale(), t.Locales(), ts.MostMatchLocale())
					for _, d := range append(ds, "", "nope") {
						tr := ts.GetOrNoop(d)
						for _, l := range append([]string{"", "de", "xx_YY"}, locNames...) {
							_, ok := tr.Get(l)
							fmt.Fprint(&b, ok, tr.GetOrNoop(l).Lang(), tr.GetOrNoop(l).X("", "a"))
						}
						for l, c := range m.Domains[d] {
							w := ts.D(d).L(l)
							for _, e := range c.Es {
								fmt.Fprint(&b, len(w.X(e.Ctxt, e.ID)), len(w.XN64(e.Ctxt, e.ID, e.ID2, 3)))
							}
						}
					}
					return b.String()
				}
				// fresh handles race first: nothing may be initialised lazily by a query
				var wg sync.WaitGroup
				out := make([]string, 8)
				start := make(chan bool)
				for g := range out {
					wg.Add(1)
					go func() { defer wg.Done(); <-start; out[g] = job(false) }()
				}
				close(start)
				wg.Wait()
				want := job(false)
				h.same(s, "handle after the lookups", ts, m)
				cnt := func(s string) string { b := []byte(s); sort.Slice(b, func(i, j int) bool { return b[i] < b[j] }); return string(b) }
				for g := range out {
					if cnt(out[g]) != cnt(want) {
						h.fail(s, "concurrent result", out[g], want)
					}
				}
			})
			t.SetGlobal(t.NewTranslations())
		}
	})
}
