// Loading catalogs from a file system (package t).
package github.com/youthlin/t

// ---- a walk of a file system: what fs.WalkDir visits, in order
ufn walkn(f fs.FS, root string) int
ufn walkpath(f fs.FS, root string, i int) string
ufn walkent(f fs.FS, root string, i int) fs.DirEntry
ufn walkerr(f fs.FS, root string) error
ufn walklast(f fs.FS, root string) string
ufn walklastent(f fs.FS, root string) fs.DirEntry

func verifWalkN(f, root) (r)
  trusted
  assumes r == walkn(f, root)
  modifies nothing
func verifWalkPath(f, root, i) (r)
  trusted
  assumes r == walkpath(f, root, i)
  modifies nothing
func verifWalkEnt(f, root, i) (r)
  trusted
  assumes r == walkent(f, root, i)
  modifies nothing
func verifWalkErr(f, root) (r)
  trusted
  assumes r == walkerr(f, root)
  modifies nothing
func verifWalkLast(f, root) (r)
  trusted
  assumes r == walklast(f, root)
  modifies nothing
func verifWalkLastEnt(f, root) (r)
  trusted
  assumes r == walklastent(f, root)
  modifies nothing

// ---- files: opening, status, content
ufn openerr(f fs.FS, p string) error
ufn openf(f fs.FS, p string) fs.File
ufn staterr(o fs.File) error
ufn statfi(o fs.File) fs.FileInfo
ufn readok(o io.Reader) bool
ufn contentof(o io.Reader) string

iface io/fs.FS.Open(f, name) (r, err)
  assumes err == openerr(f, name) && r == openf(f, name)
  assumes err == nil ==> r != nil
iface io/fs.File.Stat(o) (r, err)
  assumes err == staterr(o) && r == statfi(o)
  assumes err == nil ==> r != nil
iface io/fs.File.Close(o) (err)

// ---- what parsing a content gives
ufn poErr(c string) error
ufn moErr(c string) error
ufn poLang(c string) string
ufn moLang(c string) string
// the content, and the reader, a catalog was parsed with
ufn srcOf(x *translator.File) string
ufn srcMo(x *translator.File) bool

fn visF(f fs.FS, i int) fs.File = openf(f, walkpath(f, ".", i))
fn visC(f fs.FS, i int) string = contentof(visF(f, i))
fn regular(f fs.FS, i int) bool = walkent(f, ".", i) != nil && !invoke("IsDir", walkent(f, ".", i))
fn readable(f fs.FS, i int) bool = openerr(f, walkpath(f, ".", i)) == nil && staterr(visF(f, i)) == nil && readok(visF(f, i))
fn named(f fs.FS, i int, ext string) bool = suffixof(ext, invoke("Name", walkent(f, ".", i)))

// visit i is a readable, well formed catalog of the kind (mo or po)
fn hit(f fs.FS, mo bool, i int) bool = regular(f, i) && readable(f, i) &&
  (mo ? named(f, i, ".mo") && moErr(visC(f, i)) == nil : named(f, i, ".po") && poErr(visC(f, i)) == nil)
fn visL(f fs.FS, mo bool, i int) string = mo ? moLang(visC(f, i)) : poLang(visC(f, i))
fn hitL(f fs.FS, mo bool, i int, l string) bool = hit(f, mo, i) && visL(f, mo, i) != "" && norm(visL(f, mo, i)) == l

// some visit before n is a catalog; the last one of language l, or -1
rec anyHit(f fs.FS, mo bool, n int) bool = n > 0 && (hit(f, mo, n-1) || anyHit(f, mo, n-1))
rec lastHit(f fs.FS, mo bool, n int, l string) int = n <= 0 ? -1 : hitL(f, mo, n-1, l) ? n-1 : lastHit(f, mo, n-1, l)

// tor is the catalog parsed from visit i
fn isCat(tor Translator, f fs.FS, mo bool, i int) bool = typeis(tor, *translator.File) &&
  srcOf(tor.(*translator.File)) == visC(f, i) && srcMo(tor.(*translator.File)) == mo

// the file system calls a file the same in its directory and in its status
fn sameNames(f fs.FS) bool = forall i int :: {walkpath(f, ".", i)} 0 <= i && i < walkn(f, ".") ==> invoke("Name", statfi(visF(f, i))) == invoke("Name", walkent(f, ".", i))

fn stage(tr *Translation, f fs.FS, l string, nmo, npo int, oh bool, ov Translator) bool =
  lastHit(f, false, npo, l) >= 0 ? has(tr.langs, l) && isCat(tr.langs[l], f, false, lastHit(f, false, npo, l)) :
  lastHit(f, true, nmo, l) >= 0 ? has(tr.langs, l) && isCat(tr.langs[l], f, true, lastHit(f, true, nmo, l)) :
  has(tr.langs, l) == oh && (oh ==> tr.langs[l] == ov)

func (*Translation).LoadFS(tr, f) (r)
  root C08, C09
  requires trInv(tr) && tr.langs != nil && f != nil && sameNames(f)
  requires walkn(f, ".") >= 0
  ensures {C08,C09} r == (anyHit(f, true, walkn(f, ".")) || anyHit(f, false, walkn(f, ".")))
  ensures {C08,C09} forall l string :: {has(tr.langs, l)} stage(tr, f, l, walkn(f, "."), walkn(f, "."), old(has(tr.langs, l)), old(tr.langs[l]))
  ensures trInv(tr)
  modifies mapof(tr.langs)
  loopinv trInv(tr)
  loopinv {C08,C09} i iter, loaded bool ::: loaded == anyHit(f, true, i)
  loopinv {C08,C09} i iter, loaded bool ::: loaded == (anyHit(f, true, walkn(f, ".")) || anyHit(f, false, i))
  loopinv {C08,C09} i iter ::: forall l string :: {has(tr.langs, l)} {old(has(tr.langs, l))} stage(tr, f, l, i, 0, old(has(tr.langs, l)), old(tr.langs[l]))
  loopinv {C08,C09} i iter ::: forall l string :: {has(tr.langs, l)} {old(has(tr.langs, l))} stage(tr, f, l, walkn(f, "."), i, old(has(tr.langs, l)), old(tr.langs[l]))

func NewTranslation(domain, translators) (r)
  internal
  requires len(translators) == 0
  ensures r != nil && fresh(r) && r.langs != nil && fresh(r.langs) && trInv(r)
  ensures forall l string :: {has(r.langs, l)} !has(r.langs, l)
  modifies nothing

fn anyCat(f fs.FS) bool = anyHit(f, true, walkn(f, ".")) || anyHit(f, false, walkn(f, "."))
fn bindable(ts *Translations, f fs.FS) bool = ts != nil && ts.domains != nil && f != nil && sameNames(f) && walkn(f, ".") >= 0
// domain holds just what the source f yields, or, if that is nothing, what it held (oh, ov)
fn bound(ts *Translations, domain string, f fs.FS, oh bool, ov *Translation) bool =
  anyCat(f) ? has(ts.domains, domain) && ts.domains[domain] != nil && fresh(ts.domains[domain]) && ts.domains[domain].langs != nil &&
     (forall l string :: {has(ts.domains[domain].langs, l)} stage(ts.domains[domain], f, l, walkn(f, "."), walkn(f, "."), false, nil)) :
  has(ts.domains, domain) == oh && ts.domains[domain] == ov

func (*Translations).BindFS(ts, domain, fsys) ()
  root C07, C08
  requires bindable(ts, fsys)
  ensures {C08} bound(ts, domain, fsys, old(has(ts.domains, domain)), old(ts.domains[domain]))
  ensures forall d string :: {has(ts.domains, d)} d != domain ==> has(ts.domains, d) == old(has(ts.domains, d)) && ts.domains[d] == old(ts.domains[d])
  modifies mapof(ts.domains)
