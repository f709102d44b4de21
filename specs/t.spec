// The registry of domains and locales (package t), and the locale package.
package github.com/youthlin/t

ufn langmake(s string) language.Tag
ufn tagbase(t language.Tag) language.Base
ufn tagregion(t language.Tag) language.Region
ufn sysTag() language.Tag

// the ll_CC form of a tag, and of a locale name
fn normtag(t language.Tag) string = fmtv(tagbase(t)) + "_" + fmtv(tagregion(t))
// norm is opaque: by definition norm(s) = normtag(langmake(s)), see Normalize
ufn norm(s string) string
fn sysLocale() string = normtag(sysTag())

extern golang.org/x/text/language.Make(s) (t)
  assumes t == langmake(s)
extern (golang.org/x/text/language.Tag).Base(t) (b, c)
  assumes b == tagbase(t)
extern (golang.org/x/text/language.Tag).Region(t) (r, c)
  assumes r == tagregion(t)
extern github.com/Xuanwo/go-locale.Detect() (t, err)
  assumes t == sysTag()

fn mapsEqual(a, b map[string]*Translation) bool = forall k string :: {has(a, k)} {has(b, k)} has(a, k) == has(b, k) && (has(a, k) ==> a[k] == b[k])

// r is a copy of ts that shares nothing a setter, bind, removal or clear writes
fn isolated(r, ts *Translations) bool = r != nil && fresh(r) && r.domains != nil && fresh(r.domains) && mapsEqual(r.domains, ts.domains) && r.sourceCodeLocale == ts.sourceCodeLocale

func (*Translations).clone(ts) (r)
  internal
  requires ts != nil
  ensures isolated(r, ts) && r.locale == ts.locale && r.domain == ts.domain
  modifies nothing
  loopinv m map[string]*Translation, it miter ::: forall k string :: {has(m, k)} (has(m, k) <==> seen(it, k)) && (has(m, k) ==> m[k] == ts.domains[k])
  loopinv m map[string]*Translation ::: m != nil && fresh(m)

func (*Translations).D(ts, domain) (r)
  root C07, C12
  requires ts != nil
  ensures isolated(r, ts) && r.locale == ts.locale && r.domain == domain
  modifies nothing
  loopinv m map[string]*Translation, it miter ::: forall k string :: {has(m, k)} (has(m, k) <==> seen(it, k)) && (has(m, k) ==> m[k] == ts.domains[k])
  loopinv m map[string]*Translation ::: m != nil && fresh(m)

func (*Translations).L(ts, loc) (r)
  root C07, C12
  requires ts != nil
  ensures isolated(r, ts) && r.locale == (loc == "" ? sysLocale() : norm(loc)) && r.domain == ts.domain
  modifies nothing
  loopinv m map[string]*Translation, it miter ::: forall k string :: {has(m, k)} (has(m, k) <==> seen(it, k)) && (has(m, k) ==> m[k] == ts.domains[k])
  loopinv m map[string]*Translation ::: m != nil && fresh(m)

func Global() (r)
  root C07, C12
  requires global(global) != nil
  ensures isolated(r, global(global)) && r.locale == global(global).locale && r.domain == global(global).domain
  modifies nothing

func D(domain) (r)
  root C07, C12
  requires global(global) != nil
  ensures isolated(r, global(global)) && r.locale == global(global).locale && r.domain == domain
  modifies nothing

func L(loc) (r)
  root C07, C12
  requires global(global) != nil
  ensures isolated(r, global(global)) && r.locale == (loc == "" ? sysLocale() : norm(loc)) && r.domain == global(global).domain
  modifies nothing

// ---- setters and queries of a handle

func (*Translations).SetDomain(ts, domain) ()
  root C07, C08
  requires ts != nil
  ensures ts.domain == domain
  modifies ts.domain

func (*Translations).Domain(ts) (r)
  root C08, C12
  requires ts != nil
  ensures r == ts.domain
  modifies nothing

func (*Translations).SetLocale(ts, lang) ()
  root C07, C10
  requires ts != nil
  ensures ts.locale == (lang == "" ? sysLocale() : norm(lang))
  modifies ts.locale

func (*Translations).Locale(ts) (r)
  root C10, C12
  requires ts != nil
  ensures r == ts.locale
  modifies nothing

func (*Translations).SourceCodeLocale(ts) (r)
  root C10, C12
  requires ts != nil
  ensures r == ts.sourceCodeLocale
  modifies nothing

func (*Translations).SetSourceCodeLocale(ts, lang) ()
  root C07, C10
  requires ts != nil
  ensures ts.sourceCodeLocale == norm(lang)
  modifies ts.sourceCodeLocale

func (*Translations).HasDomain(ts, domain) (r)
  root C08, C12
  requires ts != nil
  ensures r == has(ts.domains, domain)
  modifies nothing
  loopinv it miter ::: !seen(it, domain)

func (*Translations).Domains(ts) (r)
  root C08, C12
  requires ts != nil
  ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> has(ts.domains, r[i])
  ensures forall d string :: {has(ts.domains, d)} has(ts.domains, d) ==> (exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == d)
  ensures forall i, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  modifies nothing
  loopinv l []string, it miter ::: forall i int :: {l[i]} 0 <= i && i < len(l) ==> seen(it, l[i])
  loopinv l []string, it miter ::: forall d string :: {seen(it, d)} seen(it, d) ==> (exists i int :: {l[i]} 0 <= i && i < len(l) && l[i] == d)
  loopinv l []string ::: forall i, j int :: {l[i], l[j]} 0 <= i && i < j && j < len(l) ==> l[i] != l[j]

func (*Translations).Get(ts, domain) (tr, ok)
  root C08, C12
  requires ts != nil
  ensures ok == has(ts.domains, domain) && tr == (has(ts.domains, domain) ? ts.domains[domain] : nil)
  modifies nothing

func (*Translations).GetOrNoop(ts, domain) (tr)
  root C08, C12
  requires ts != nil
  ensures tr == (has(ts.domains, domain) ? ts.domains[domain] : global(trNoop))
  modifies nothing

func (*Translations).RemoveDomain(ts, domain) (r)
  root C07, C08
  requires ts != nil
  ensures r == (domain != "" && old(has(ts.domains, domain)))
  ensures r ==> !has(ts.domains, domain)
  ensures forall d string :: {has(ts.domains, d)} (r ==> d != domain) ==> has(ts.domains, d) == old(has(ts.domains, d)) && ts.domains[d] == old(ts.domains[d])
  ensures ts.domain == (r && old(ts.domain) == domain ? "default" : old(ts.domain))
  modifies mapof(ts.domains), ts.domain
  loopinv it miter ::: !seen(it, domain)

func (*Translations).ClearDomains(ts) ()
  root C07, C08
  requires ts != nil
  ensures ts.domains != nil && fresh(ts.domains) && (forall d string :: {has(ts.domains, d)} !has(ts.domains, d))
  ensures ts.domain == "default"
  modifies ts.domains, ts.domain

// ---- locales: normal form, selection, matching
package github.com/youthlin/t/locale

func NormalizeTag(tag) (r)
  root C10
  ensures r == normtag(tag)
  modifies nothing

func Normalize(lang) (r)
  root C10
  ensures r == normtag(langmake(lang))
  assumes r == norm(lang)
  note norm is the name of the function Normalize is proved to compute (a definition, not an assumption)
  modifies nothing

func GetDefault() (r)
  root C10
  ensures r == sysLocale()
  modifies nothing

package github.com/youthlin/t

// the tag cache holds, for a locale name, its tag
fn tagCacheInv() bool = forall k any :: {ghost("smd", globalref(cachedTag))[k]}
  ghost("smd", globalref(cachedTag))[k] && typeis(k, string) ==> ghost("smv", globalref(cachedTag))[k] == mkiface(langmake(k.(string)), language.Tag)

func Tag(loc) (r)
  root C10
  requires tagCacheInv()
  ensures r == langmake(loc)
  ensures tagCacheInv()
  modifies ghost("smd", globalref(cachedTag)), ghost("smv", globalref(cachedTag))

func Tags(locs) (r)
  root C10
  requires tagCacheInv()
  ensures len(r) == len(locs)
  ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == langmake(locs[i])
  ensures tagCacheInv()
  modifies ghost("smd", globalref(cachedTag)), ghost("smv", globalref(cachedTag))
  loopinv tagCacheInv()
  loopinv i iter, t []language.Tag ::: len(t) == i && (forall j int :: {t[j]} 0 <= j && j < i ==> t[j] == langmake(locs[j]))

func Match(supported, accept) (tag, index, c)
  root C10
  requires tagCacheInv()
  ensures len(supported) > 0 ==> 0 <= index && index < len(supported)
  ensures tagCacheInv()
  modifies ghost("smd", globalref(cachedTag)), ghost("smv", globalref(cachedTag))

// s is the source-code locale or a language of the current domain
fn langsOf(ts *Translations) map[string]Translator = trOf(ts).langs
fn isLocale(ts *Translations, s string) bool = s == ts.sourceCodeLocale || (exists l string :: {has(langsOf(ts), l)} has(langsOf(ts), l) && norm(l) == s)
fn tsOK(ts *Translations) bool = ts != nil && global(trNoop) != nil && (forall d string :: {has(ts.domains, d)} has(ts.domains, d) ==> ts.domains[d] != nil)

func (*Translations).UsedLocale(ts) (r)
  root C10, C12
  requires tsOK(ts)
  ensures r == (has(ts.domains, ts.domain) && has(ts.domains[ts.domain].langs, ts.locale) ? ts.locale : ts.sourceCodeLocale)
  modifies nothing

func (*Translations).Locales(ts) (r)
  root C10, C12
  requires tsOK(ts)
  ensures {C10,C11} len(r) > 0
  ensures {C10,C11} forall i int :: {r[i]} 0 <= i && i < len(r) ==> isLocale(ts, r[i])
  ensures {C10} exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == ts.sourceCodeLocale
  ensures {C10} forall l string :: {has(langsOf(ts), l)} has(langsOf(ts), l) ==> (exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == norm(l))
  ensures {C10} forall i, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> r[i] != r[j] && r[i] <= r[j]
  modifies nothing
  loopinv x []string ::: fresh(x) && len(x) > 0 && x[0] == ts.sourceCodeLocale
  loopinv {C10,C11} x []string, m map[string]struct{} ::: forall i int :: {x[i]} 0 <= i && i < len(x) ==> has(m, x[i]) && isLocale(ts, x[i])
  loopinv {C10} x []string, m map[string]struct{} ::: forall k string :: {has(m, k)} has(m, k) ==> (exists i int :: {x[i]} 0 <= i && i < len(x) && x[i] == k)
  loopinv {C10} m map[string]struct{}, it miter ::: forall l string :: {seen(it, l)} seen(it, l) ==> has(m, norm(l))
  loopinv {C10} x []string ::: forall i, j int :: {x[i], x[j]} 0 <= i && i < j && j < len(x) ==> x[i] != x[j]

func (*Translations).MostMatchLocale(ts) (r)
  root C10
  requires tsOK(ts) && tagCacheInv()
  ensures isLocale(ts, r)
  modifies ghost("smd", globalref(cachedTag)), ghost("smv", globalref(cachedTag))

// ---- catalogs of one domain
fn torLang(tor Translator) string =
  typeis(tor, *translator.File) ? hdrOf(tor.(*translator.File), "Language") :
  typeis(tor, *nooptor) ? "" : invoke("Lang", tor)
fn langKey(tor Translator) string = norm(torLang(tor))

func (*nooptor).Lang(tor) (r)
  root C09
  ensures r == ""
  modifies nothing

locs coldHdr(tor Translator) = typeis(tor, *translator.File) && tor.(*translator.File).headers == nil ? tor.(*translator.File).headers : nothing
func (*Translation).AddOrReplace(tr, tor) (r)
  root C09, C10
  requires tr != nil && tr.langs != nil && torInv(tor)
  ensures torLang(tor) == "" ==> (forall l string :: {has(tr.langs, l)} has(tr.langs, l) == old(has(tr.langs, l)) && (has(tr.langs, l) ==> tr.langs[l] == old(tr.langs[l])))
  ensures torLang(tor) != "" ==> has(tr.langs, langKey(tor)) && tr.langs[langKey(tor)] == tor
  ensures forall l string :: {has(tr.langs, l)} l != langKey(tor) ==> has(tr.langs, l) == old(has(tr.langs, l)) && (has(tr.langs, l) ==> tr.langs[l] == old(tr.langs[l]))
  ensures r == old(torLang(tor) != "" && has(tr.langs, langKey(tor)) ? tr.langs[langKey(tor)] : nil)
  ensures torInv(tor)
  ensures {C07,C08,C09} old(trInv(tr)) ==> trInv(tr)
  ensures {C12} typeis(tor, *translator.File) && headerWarm(tor.(*translator.File)) && torLang(tor) != "" ==> torWarm(tor)
  modifies mapof(tr.langs), coldHdr(tor)

func (*Translation).Get(tr, lang) (tor, ok)
  root C10
  requires tr != nil
  ensures ok == has(tr.langs, lang) && tor == (has(tr.langs, lang) ? tr.langs[lang] : nil)
  modifies nothing

func (*Translation).GetOrNoop(tr, lang) (tor)
  root C10
  requires tr != nil
  ensures tor == (has(tr.langs, lang) ? tr.langs[lang] : global(noopTranslator))
  modifies nothing
