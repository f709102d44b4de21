// Package level functions: the same operation on the current global translations (package t).
package github.com/youthlin/t

fn G() *Translations = global(global)
// the file system a path stands for
fn pathAsFS(path string) fs.FS = mkiface(path, pathFS)
fn sameElse(ts *Translations, domain string) bool =
  forall d string :: {has(ts.domains, d)} d != domain ==> has(ts.domains, d) == old(has(ts.domains, d)) && ts.domains[d] == old(ts.domains[d])

func SetGlobal(g) ()
  root C07
  ensures G() == g
  modifies global(global)

func LoadFS(fsys) ()
  root C07, C08
  requires bindable(G(), fsys)
  ensures {C08} bound(G(), G().domain, fsys, old(has(G().domains, G().domain)), old(G().domains[G().domain]))
  ensures forall d string :: {has(G().domains, d)} d != G().domain ==> has(G().domains, d) == old(has(G().domains, d)) && G().domains[d] == old(G().domains[d])
  modifies mapof(G().domains)

func BindFS(domain, fsys) ()
  root C07, C08
  requires bindable(G(), fsys)
  ensures {C08} bound(G(), domain, fsys, old(has(G().domains, domain)), old(G().domains[domain]))
  ensures forall d string :: {has(G().domains, d)} d != domain ==> has(G().domains, d) == old(has(G().domains, d)) && G().domains[d] == old(G().domains[d])
  modifies mapof(G().domains)

func Load(path) ()
  root C07, C08
  requires bindable(G(), pathAsFS(path))
  ensures {C08} bound(G(), G().domain, pathAsFS(path), old(has(G().domains, G().domain)), old(G().domains[G().domain]))
  ensures forall d string :: {has(G().domains, d)} d != G().domain ==> has(G().domains, d) == old(has(G().domains, d)) && G().domains[d] == old(G().domains[d])
  modifies mapof(G().domains)

func Bind(domain, path) ()
  root C07, C08
  requires bindable(G(), pathAsFS(path))
  ensures {C08} bound(G(), domain, pathAsFS(path), old(has(G().domains, domain)), old(G().domains[domain]))
  ensures forall d string :: {has(G().domains, d)} d != domain ==> has(G().domains, d) == old(has(G().domains, d)) && G().domains[d] == old(G().domains[d])
  modifies mapof(G().domains)

func RemoveDomain(domain) (r)
  root C08
  requires G() != nil
  ensures r == (domain != "" && old(has(G().domains, domain)))
  ensures r ==> !has(G().domains, domain)
  ensures forall d string :: {has(G().domains, d)} (r ==> d != domain) ==> has(G().domains, d) == old(has(G().domains, d)) && G().domains[d] == old(G().domains[d])
  ensures G().domain == (r && old(G().domain) == domain ? "default" : old(G().domain))
  modifies mapof(G().domains), G().domain

func ClearDomains() ()
  root C08
  requires G() != nil
  ensures G().domains != nil && fresh(G().domains) && (forall d string :: {has(G().domains, d)} !has(G().domains, d))
  ensures G().domain == "default"
  modifies G().domains, G().domain

func SetDomain(domain) ()
  root C08
  requires G() != nil
  ensures G().domain == domain
  modifies G().domain

func Domain() (r)
  root C08, C12
  requires G() != nil
  ensures r == G().domain
  modifies nothing

func HasDomain(domain) (r)
  root C08, C12
  requires G() != nil
  ensures r == has(G().domains, domain)
  modifies nothing

func Domains() (r)
  root C08, C12
  requires G() != nil
  ensures {C08} forall i int :: {r[i]} 0 <= i && i < len(r) ==> has(G().domains, r[i])
  ensures {C08} forall d string :: {has(G().domains, d)} has(G().domains, d) ==> (exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == d)
  modifies nothing

func SetLocale(lang) ()
  root C10
  requires G() != nil
  ensures G().locale == (lang == "" ? sysLocale() : norm(lang))
  modifies G().locale

func Locale() (r)
  root C10, C12
  requires G() != nil
  ensures r == G().locale
  modifies nothing

func SetSourceCodeLocale(lang) ()
  root C10
  requires G() != nil
  ensures G().sourceCodeLocale == norm(lang)
  modifies G().sourceCodeLocale

func SourceCodeLocale() (r)
  root C10, C12
  requires G() != nil
  ensures r == G().sourceCodeLocale
  modifies nothing

func UsedLocale() (r)
  root C10, C12
  requires tsOK(G())
  ensures r == (has(G().domains, G().domain) && has(G().domains[G().domain].langs, G().locale) ? G().locale : G().sourceCodeLocale)
  modifies nothing

func Locales() (r)
  root C10, C12
  requires tsOK(G())
  ensures {C10,C11} len(r) > 0
  ensures {C10,C11} forall i int :: {r[i]} 0 <= i && i < len(r) ==> isLocale(G(), r[i])
  ensures {C10} exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == G().sourceCodeLocale
  ensures {C10} forall l string :: {has(langsOf(G()), l)} has(langsOf(G()), l) ==> (exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == norm(l))
  modifies nothing

func MostMatchLocale() (r)
  root C10
  requires tsOK(G()) && tagCacheInv()
  ensures isLocale(G(), r)
  modifies ghost("smd", globalref(cachedTag)), ghost("smv", globalref(cachedTag))

func NewTranslations() (r)
  root C07, C08, C10
  ensures r != nil && fresh(r) && fresh(r.domains) && (forall d string :: {has(r.domains, d)} !has(r.domains, d))
  ensures r.domain == "default" && r.sourceCodeLocale == "en_US" && r.locale == sysLocale()
  modifies nothing
