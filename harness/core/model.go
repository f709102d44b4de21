package main

import (
	"fmt"
	"io/fs"
	"math"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

// ---- oracles ----

func extra(args []any) string {
	if len(args) == 0 {
		return ""
	}
	var p []string
	for _, a := range args {
		if a == nil {
			p = append(p, "<nil>")
		} else {
			p = append(p, fmt.Sprintf("%T=%v", a, a))
		}
	}
	return "%!(EXTRA " + strings.Join(p, ", ") + ")"
}

// fmtOK tells whether the format has all the arguments it asks for.
func fmtOK(format string, args []any) bool {
	s := fmt.Sprintf(format, args...)
	for _, bad := range []string{"%!", "MISSING", "BADINDEX", "BADWIDTH", "BADPREC", "NOVERB"} {
		if strings.Contains(strings.ReplaceAll(s, "%!(EXTRA ", ""), bad) {
			return false
		}
	}
	return true
}

// wantFmt is the text a message renders to.
func wantFmt(format string, args []any) string {
	if len(args) == 0 {
		return format
	}
	full := fmt.Sprintf(format, args...)
	for k := 0; k < len(args); k++ {
		if s := fmt.Sprintf(format, args[:k]...); s+extra(args[k:]) == full {
			return s
		}
	}
	return full
}

func wantSource(id, id2 string, n int64, args []any) string {
	if id2 != "" && n != 1 {
		return wantFmt(id2, args)
	}
	return wantFmt(id, args)
}

// E is a catalog entry of the model.
type E struct {
	Ctxt, ID string
	ID2      string   `json:",omitempty"`
	Plural   bool     `json:",omitempty"`
	Str      string   `json:",omitempty"`
	StrN     []string `json:",omitempty"`
	Cmts     []string `json:",omitempty"`
}

func (e E) entry() *translator.Entry {
	return &translator.Entry{MsgCmts: append([]string(nil), e.Cmts...), MsgCtxt: e.Ctxt, MsgID: e.ID, IsPlural: e.Plural, MsgID2: e.ID2, MsgStr: e.Str, MsgStrN: append([]string(nil), e.StrN...)}
}

type rule struct {
	Text   string // the header value
	Forms  int
	Index  func(n int64) (int64, bool) `json:"-"`
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

var rules = []rule{
	{"", 0, nil},
	{"nplurals=1; plural=0;", 1, func(n int64) (int64, bool) { return 0, true }},
	{"nplurals=2; plural=n != 1;", 2, func(n int64) (int64, bool) { return b2i(n != 1), true }},
	{"nplurals=2; plural=(n != 1);", 2, func(n int64) (int64, bool) { return b2i(n != 1), true }},
	{"nplurals=2; plural=n>1;", 2, func(n int64) (int64, bool) { return b2i(n > 1), true }},
	{"nplurals=3; plural=n%3;", 3, func(n int64) (int64, bool) { return n % 3, true }},
	{"nplurals=3; plural=n;", 3, func(n int64) (int64, bool) { return n, true }},
	{"nplurals=2; plural=n;", 2, func(n int64) (int64, bool) { return n, true }},
	{"nplurals=4; plural=n-1;", 4, func(n int64) (int64, bool) { return n - 1, true }},
	{"nplurals=9; plural=n+0;", 9, func(n int64) (int64, bool) { return n, true }},
	{"nplurals=0; plural=0;", 0, func(n int64) (int64, bool) { return 0, true }},
	{"nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;", 3, func(n int64) (int64, bool) {
		switch n {
		case 1:
			return 0, true
		case 2:
			return 1, true
		}
		return 2, true
	}},
	{"nplurals=3; plural=6/n;", 3, func(n int64) (int64, bool) {
		if n == 0 {
			return 0, false
		}
		return 6 / n, true
	}},
	{"nplurals=3; plural=7%n;", 3, func(n int64) (int64, bool) {
		if n == 0 {
			return 0, false
		}
		return 7 % n, true
	}},
	{"nplurals=3; plural=1<<n;", 3, func(n int64) (int64, bool) {
		if n < 0 {
			return 0, false
		}
		if n > 63 {
			return 0, true
		}
		return 1 << uint(n), true
	}},
	{"nplurals=2; plural=99999999999999999999;", 2, func(n int64) (int64, bool) { return 0, false }},
	{"nplurals=2; plural=n ? 1;", 2, func(n int64) (int64, bool) { return 0, false }},
	{"nplurals=2; plural=;", 2, func(n int64) (int64, bool) { return 0, false }},
	{"nplurals=x; plural=0;", 0, nil},
	{"nplurals=2", 0, nil},
	{"garbage", 0, nil},
}

var nvals = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 21, 63, 64, 65, 100, 101, -1, -2, -3, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32}

// Cat is the model of one catalog.
type Cat struct {
	Lang string
	Rule int
	Es   []E
}

func (c *Cat) header() string {
	var b strings.Builder
	b.WriteString("Project-Id-Version: x\n")
	if c.Lang != "" {
		b.WriteString("Language: " + c.Lang + "\n")
	}
	b.WriteString("Content-Type: text/plain; charset=UTF-8\n")
	if rules[c.Rule].Text != "" {
		b.WriteString("Plural-Forms: " + rules[c.Rule].Text + "\n")
	}
	return b.String()
}

func (c *Cat) find(ctxt, id string) *E {
	if ctxt == "" && id == "" {
		return &E{Str: c.header()}
	}
	for i := len(c.Es) - 1; i >= 0; i-- {
		if c.Es[i].Ctxt == ctxt && c.Es[i].ID == id {
			return &c.Es[i]
		}
	}
	return nil
}

func (c *Cat) x(ctxt, id string, args []any) string {
	if c != nil {
		if e := c.find(ctxt, id); e != nil && e.Str != "" {
			return wantFmt(e.Str, args)
		}
	}
	return wantFmt(id, args)
}

func (c *Cat) xn(ctxt, id, id2 string, n int64, args []any) string {
	src := wantSource(id, id2, n, args)
	if c == nil {
		return src
	}
	e := c.find(ctxt, id)
	if e == nil {
		return src
	}
	if e.ID2 == "" && len(e.StrN) == 0 {
		if e.Str != "" {
			return wantFmt(e.Str, args)
		}
		return wantFmt(id, args)
	}
	r := rules[c.Rule]
	if r.Index == nil {
		return src
	}
	i, ok := r.Index(n)
	if !ok || i < 0 || i >= int64(r.Forms) || i >= int64(len(e.StrN)) || e.StrN[i] == "" {
		return src
	}
	return wantFmt(e.StrN[i], args)
}

func (c *Cat) file() *translator.File {
	f := new(translator.File)
	f.AddEntry(&translator.Entry{MsgStr: c.header()})
	for _, e := range c.Es {
		f.AddEntry(e.entry())
	}
	return f
}

func q(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; ch {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteByte(ch)
		case '\n':
			b.WriteString("\\n")
		case '\t':
			b.WriteString("\\t")
		case '\r':
			b.WriteString("\\r")
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// po writes the catalog as a PO file, independently of the library.
func (c *Cat) po() []byte {
	var b strings.Builder
	b.WriteString("# header\nmsgid \"\"\nmsgstr \"\"\n")
	for _, l := range strings.SplitAfter(c.header(), "\n") {
		if l != "" {
			b.WriteString(q(l) + "\n")
		}
	}
	for _, e := range c.Es {
		b.WriteString("\n#: a.go:1\n")
		if e.Ctxt != "" {
			b.WriteString("msgctxt " + q(e.Ctxt) + "\n")
		}
		b.WriteString("msgid " + q(e.ID) + "\n")
		if e.Plural {
			b.WriteString("msgid_plural " + q(e.ID2) + "\n")
			for i, s := range e.StrN {
				fmt.Fprintf(&b, "msgstr[%d] %s\n", i, q(s))
			}
		} else {
			b.WriteString("msgstr " + q(e.Str) + "\n")
		}
	}
	return []byte(b.String())
}

func u32(b []byte, v int, be bool) []byte {
	x := uint32(v)
	if be {
		return append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
}

// mo writes the catalog as an MO file, independently of the library.
func (c *Cat) mo(be bool) []byte {
	type kv struct{ k, v string }
	es := []kv{{"", c.header()}}
	for _, e := range c.Es {
		k, v := e.ID, e.Str
		if e.Ctxt != "" {
			k = e.Ctxt + "\x04" + k
		}
		if e.Plural {
			k += "\x00" + e.ID2
			v = strings.Join(e.StrN, "\x00")
		}
		es = append(es, kv{k, v})
	}
	n := len(es)
	var h, t1, t2, data []byte
	h = u32(h, 0x950412de, be)
	for _, v := range []int{0, n, 28, 28 + 8*n, 0, 28 + 16*n} {
		h = u32(h, v, be)
	}
	base := 28 + 16*n
	for _, e := range es {
		t1 = u32(u32(t1, len(e.k), be), base+len(data), be)
		data = append(append(data, e.k...), 0)
	}
	for _, e := range es {
		t2 = u32(u32(t2, len(e.v), be), base+len(data), be)
		data = append(append(data, e.v...), 0)
	}
	return append(append(append(h, t1...), t2...), data...)
}

// ---- random catalogs ----

var ctxts = []string{"", "", "menu", "a", "ab", "File|", "1", "名"}
var ids = []string{"a", "b", "ab", "hello", "Hello %s", "%d item", "100%", "%d of %d", "line\nline", "q\"uote", "名字", "b ", "menu", "%v%%"}
var ids2 = []string{"as", "%d items", "hellos", "Hellos %s", "%d of %d items", "多"}
var strs = []string{"", "t1", "t2", "一%s", "%d 个", "%[2]v-%[1]v", "100 %", "x\ny", "translated \"q\"", "%s und %v", "末"}

func (h *H) args() []any {
	pool := []any{1, int64(2), "s", "zz", 3.5, nil, true, []int{1}, "", -7}
	var a []any
	for k := h.Intn(4); k > 0; k-- {
		a = append(a, pick(h, pool))
	}
	return a
}

// fit keeps only arguments all candidate texts are satisfied with.
func (h *H) fit(texts ...string) []any {
	for try := 0; try < 6; try++ {
		a := h.args()
		ok := true
		for _, s := range texts {
			if len(a) > 0 && !fmtOK(s, a) {
				ok = false
			}
		}
		if ok {
			return a
		}
	}
	return nil
}

func (h *H) cat(lang string) *Cat {
	c := &Cat{Lang: lang, Rule: h.Intn(len(rules))}
	if h.chance(0.6) {
		c.Rule = 1 + h.Intn(14)
	}
	for k := h.Intn(7); k > 0; k-- {
		c.Es = append(c.Es, h.ent())
	}
	return c
}

func (h *H) ent() E {
	e := E{Ctxt: pick(h, ctxts), ID: pick(h, ids)}
	if h.chance(0.55) {
		e.Plural = true
		e.ID2 = pick(h, ids2)
		for k := h.Intn(5); k > 0; k-- {
			e.StrN = append(e.StrN, pick(h, strs))
		}
	} else {
		e.Str = pick(h, strs)
	}
	return e
}

// kept: the PO reader keeps entries with a translation.
func (c *Cat) kept() *Cat {
	k := &Cat{Lang: c.Lang, Rule: c.Rule}
	for _, e := range c.Es {
		if e.Str != "" || len(e.StrN) > 0 {
			k.Es = append(k.Es, e)
		}
	}
	return k
}

var locVariants = map[string][]string{
	"zh_CN": {"zh_CN", "zh-CN", "zh_cn", "ZH-cn", "zh"},
	"en_US": {"en_US", "en-US", "en", "EN_us"},
	"de_DE": {"de_DE", "de-DE", "de", "DE"},
	"fr_FR": {"fr_FR", "fr-fr", "fr"},
	"ja_JP": {"ja_JP", "ja-JP", "ja"},
	"zh_TW": {"zh_TW", "zh-TW", "zh-Hant-TW", "zh_Hant"},
	"pt_BR": {"pt_BR", "pt-BR", "pt"},
	"pt_PT": {"pt_PT", "pt-pt"},
}
var locNames = []string{"zh_CN", "en_US", "de_DE", "fr_FR", "ja_JP", "zh_TW", "pt_BR", "pt_PT"}

// Handle is the model of a Translations.
type Handle struct {
	Locale, Domain, Source string
	Domains                map[string]map[string]*Cat // domain -> normal language -> catalog
}

func (m *Handle) cat() *Cat { return m.Domains[m.Domain][m.Locale] }
func (m *Handle) clone() *Handle {
	c := *m
	c.Domains = map[string]map[string]*Cat{}
	for k, v := range m.Domains {
		c.Domains[k] = v
	}
	return &c
}
func (m *Handle) used() string {
	if m.cat() != nil {
		return m.Locale
	}
	return m.Source
}

var sysLoc = func() string { return t.NewTranslations().Locale() }()

func newHandle() *Handle {
	return &Handle{Locale: sysLoc, Domain: "default", Source: "en_US", Domains: map[string]map[string]*Cat{}}
}

// source makes a file system for a domain: catalogs in various spellings, as po or mo.
type Source struct {
	Cats map[string]*Cat `json:"cats"`
	Kind map[string]string
	Bad  []string
}

func (h *H) source(maxCats int) Source {
	s := Source{Cats: map[string]*Cat{}, Kind: map[string]string{}}
	for k := h.Intn(maxCats + 1); k > 0; k-- {
		l := pick(h, locNames)
		s.Cats[l] = h.cat(pick(h, locVariants[l]))
		s.Kind[l] = pick(h, []string{"po", "po", "mo", "MO-be"})
	}
	for k := h.Intn(3); k > 0; k-- {
		s.Bad = append(s.Bad, pick(h, []string{"bad.po", "bad.mo", "empty.po", "readme.txt", "sub/x.po", "dir.po/keep"}))
	}
	return s
}

func (s Source) fs() fs.FS {
	m := fstest.MapFS{}
	i := 0
	for l, c := range s.Cats {
		i++
		dir := ""
		if i%3 == 0 {
			dir = "d/e/"
		}
		switch s.Kind[l] {
		case "po":
			m[dir+l+".po"] = &fstest.MapFile{Data: c.po()}
		case "mo":
			m[dir+l+".mo"] = &fstest.MapFile{Data: c.mo(false)}
		default:
			m[dir+l+".mo"] = &fstest.MapFile{Data: c.mo(true)}
		}
	}
	for _, b := range s.Bad {
		switch b {
		case "bad.po", "sub/x.po":
			m[b] = &fstest.MapFile{Data: []byte("msgid \"a\nmsgstr x")}
		case "bad.mo":
			m[b] = &fstest.MapFile{Data: []byte{0xde, 0x12, 0x04, 0x95, 0, 0, 0, 0, 9, 0, 0, 0}}
		case "empty.po":
			m[b] = &fstest.MapFile{}
		default:
			m[b] = &fstest.MapFile{Data: []byte("x")}
		}
	}
	return m
}

// kept is what a domain holds after loading the source; nil when nothing loads.
func (s Source) kept() map[string]*Cat {
	if len(s.Cats) == 0 {
		return nil
	}
	r := map[string]*Cat{}
	for l, c := range s.Cats {
		if s.Kind[l] == "po" {
			r[l] = c.kept()
		} else {
			r[l] = c
		}
	}
	return r
}
