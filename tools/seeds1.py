#!/usr/bin/env python3
import sys
sys.path.insert(0, "/verif/tools")
from seedlib import main
PRE = '''
package main
import ("fmt";"os";"testing/fstest";"io/fs";"strings";"sync"
 "github.com/youthlin/t";"github.com/youthlin/t/translator";"github.com/youthlin/t/f")
var _ = fstest.MapFS{}
var _ fs.FS
var _ = strings.Join
var _ sync.Mutex
var _ translator.Entry
var _ = f.Format
var _ = t.T
func must(what string, got, want any) { if fmt.Sprint(got) != fmt.Sprint(want) { fmt.Printf("%s: got %v, want %v\\n", what, got, want); os.Exit(1) } }
func po(lang, rest string) *fstest.MapFile { return &fstest.MapFile{Data: []byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Language: "+lang+"\\\\n\\"\\n\\"Plural-Forms: nplurals=2; plural=n != 1;\\\\n\\"\\n\\n"+rest)} }
func file(header string, es ...*translator.Entry) *translator.File { fl := new(translator.File); fl.AddEntry(&translator.Entry{MsgStr: header}); for _, e := range es { fl.AddEntry(e) }; return fl }
'''
S = []
def s(id, prop, edits, body, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, main=PRE + body, needs=needs, breaks=breaks, **k))

s("c01-context-fallback", "C01", [("translator/file.go", '''	entry, ok := file.entries[key(msgCtxt, msgID)]
	if !ok || entry.MsgStr == "" {
		return f.Format(msgID, args...)
	}
	return f.Format(entry.MsgStr, args...)''', '''	entry, ok := file.entries[key(msgCtxt, msgID)]
	if !ok || entry.MsgStr == "" {
		if entry, ok = file.entries[key("", msgID)]; !ok || entry.MsgStr == "" {
			return f.Format(msgID, args...)
		}
	}
	return f.Format(entry.MsgStr, args...)''')], '''
func main() { fl := file("Language: de\\n", &translator.Entry{MsgID: "Open", MsgStr: "Offen"})
 must("X", fl.X("menu", "Open"), "Open") }''', "an id translated without a context, looked up under a context that has no entry", "another context's translation answers the lookup")

s("c02-default-plural-sign", "C02", [("f/format.go", "	if n != 1 {", "	if n != 1 && n != -1 {")], '''
func main() { fl := file("Language: de\\n")
 must("XN64", fl.XN64("", "%d day", "%d days", -1, -1), "-1 days") }''', "n = -1 on a message without a usable plural form", "the singular source text is used for -1")

s("c02-index-truncated", "C02", [("translator/plural.go", "				return int(index)", "				return int(int8(index))")], '''
func main() { fl := file("Language: de\\nPlural-Forms: nplurals=2; plural=n;\\n", &translator.Entry{MsgID: "a", MsgID2: "as", IsPlural: true, MsgStrN: []string{"f0", "f1"}})
 must("256", fl.XN64("", "a", "as", 256), "as") }''', "a rule whose value modulo 256 is a valid form index, such as n = 256", "an index out of range selects a form")

s("c05-xn1-narrow", "C05", [("translations.go", '	return ts.XN64(msgCtxt, msgID, "", int64(n), args...)', '	return ts.XN64(msgCtxt, msgID, "", int64(int32(n)), args...)')], '''
func main() { ts := t.NewTranslations(); ts.BindFS("default", fstest.MapFS{"a.po": po("de", "msgctxt \\"c\\"\\nmsgid \\"a\\"\\nmsgid_plural \\"a\\"\\nmsgstr[0] \\"one\\"\\nmsgstr[1] \\"many\\"\\n")}); ts.SetLocale("de")
 n := 1<<32 + 1
 must("XN1", ts.XN1("c", "a", n), ts.XN1_64("c", "a", int64(n))) }''', "n beyond 32 bits", "n is narrowed on the way to the full lookup")

s("c07-clone-empty-shared", "C07", [("translations.go", '''			m := make(map[string]*Translation)
			for d, tr := range ts.domains {''', '''			if len(ts.domains) == 0 {
				return ts.domains
			}
			m := make(map[string]*Translation, len(ts.domains))
			for d, tr := range ts.domains {''')], '''
func main() { ts := t.NewTranslations(); d := ts.L("de")
 d.BindFS("x", fstest.MapFS{"a.po": po("de", "msgid \\"a\\"\\nmsgstr \\"b\\"\\n")})
 must("origin sees the binding", ts.HasDomain("x"), false) }''', "a handle derived from one without domains, then a bind on either", "the two handles share the map")

s("c08-remove-keeps-current", "C08", [("translations.go", '''	if ts.domain == domain {
		ts.domain = DefaultDomain
	}
	return true''', '''	if ts.domain == domain && len(ts.domains) > 0 {
		ts.domain = DefaultDomain
	}
	return true''')], '''
func main() { ts := t.NewTranslations(); ts.BindFS("x", fstest.MapFS{"a.po": po("de", "msgid \\"a\\"\\nmsgstr \\"b\\"\\n")}); ts.SetDomain("x")
 ts.RemoveDomain("x"); must("Domain", ts.Domain(), "default") }''', "removing the last remaining domain while it is current", "the current domain stays the removed one")

s("c08-bind-merges", "C08", [("translations.go", '''	if tr.LoadFS(fsys) {
		ts.domains[domain] = tr
	}''', '''	if tr.LoadFS(fsys) {
		if old, ok := ts.domains[domain]; ok {
			for lang, tor := range old.langs {
				if _, ok := tr.langs[lang]; !ok {
					tr.langs[lang] = tor
				}
			}
		}
		ts.domains[domain] = tr
	}''')], '''
func main() { ts := t.NewTranslations(); ts.SetDomain("x"); ts.BindFS("x", fstest.MapFS{"a.po": po("de", "msgid \\"a\\"\\nmsgstr \\"b\\"\\n")})
 ts.BindFS("x", fstest.MapFS{"a.po": po("fr", "msgid \\"a\\"\\nmsgstr \\"c\\"\\n")})
 must("Locales", ts.Locales(), "[en_US fr_FR]") }''', "binding a domain twice from sources with different languages", "languages of the earlier binding survive")

s("c10-underscore-not-normalised", "C10", [("translaton.go", "	lang = locale.Normalize(lang)\n", "	if !strings.Contains(lang, \"_\") {\n		lang = locale.Normalize(lang)\n	}\n")], '''
func main() { ts := t.NewTranslations(); ts.BindFS("default", fstest.MapFS{"a.po": po("zh_cn", "msgid \\"a\\"\\nmsgstr \\"b\\"\\n")}); ts.SetLocale("zh_CN")
 must("T", ts.T("a"), "b") }''', "a catalog whose Language header has an underscore but is not in normal form", "the catalog is registered under a spelling no locale selects")

s("c12-memo-missing-language", "C12", [("translaton.go", '''	if tor, ok := tr.langs[lang]; ok {
		return tor
	}
	return noopTranslator''', '''	if tor, ok := tr.langs[lang]; ok && tor != nil {
		return tor
	}
	if lang == "" {
		tr.langs[lang] = noopTranslator
	}
	return noopTranslator''')], '''
func main() { tr := t.NewTranslation("d"); var wg sync.WaitGroup
 for i := 0; i < 8; i++ { wg.Add(1); go func() { defer wg.Done(); for k := 0; k < 2000; k++ { tr.GetOrNoop("") } }() }
 wg.Wait(); _, ok := tr.Get(""); must("a lookup registered a language", ok, false) }''', "a lookup in an empty locale", "a read writes the language map", race="-race")

s("c13-last-header-wins", "C13", [("translator/file.go", '''				if _, ok := headers[k]; !ok {
					headers[k] = v
				}''', '''				if _, ok := headers[k]; !ok || v != "" {
					headers[k] = v
				}''')], '''
func main() { must("Lang", file("Language: de\\nLanguage: fr\\n").Lang(), "de") }''', "a header that repeats a name", "the last value is used instead of the first")

s("c06-error-args", "C06", [("f/format.go", '''	if length == 0 {
		return format
	}
''', '''	if length == 0 {
		return format
	}
	for i, arg := range args {
		if e, ok := arg.(error); ok && e != nil {
			args[i] = e.Error()
		}
	}
''')], '''
func main() { a := []any{fs.ErrNotExist}; f.Format("%v", a...); _, ok := a[0].(error); must("argument still an error", ok, true) }''', "an argument that is an error", "the caller's argument is replaced by its text")

if __name__ == "__main__":
    main(S, sys.argv[1:])
