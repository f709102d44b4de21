// Lookups: File.X / File.XN64, the translators, the handles and the package level.
package github.com/youthlin/t/translator

implementers translator.Translator: *translator.File, *t.nooptor

// plurals.Eval as a function of the expression and n
ufn evalerr(exp string, n int64) error
fn evalok(exp string, n int64) bool = evalerr(exp, n) == nil
ufn evalv(exp string, n int64) int64

fn msgkey(ctxt, id string) string = ctxt + "\x04" + id

fn entriesInv(file *File) bool = file != nil &&
  (forall k string :: {has(file.entries, k)} has(file.entries, k) ==> file.entries[k] != nil)

// ---- header lines: the first value of each 'Name: value' line, trimmed
fn headerRE() string = "(.*?): (.*)"
fn hlineOK(l string) bool = l != "" && rxcount(headerRE(), l) == 1
fn hlineKey(l string) string = trimspace(rxgroups(headerRE(), l)[1])
fn hlineVal(l string) string = trimspace(rxgroups(headerRE(), l)[2])
rec hasLine(a #Strs, n int, k string) bool = n > 0 && (hasLine(a, n-1, k) || hlineOK(a[n-1]) && hlineKey(a[n-1]) == k)
rec lineVal(a #Strs, n int, k string) string = n <= 0 ? "" : hasLine(a, n-1, k) ? lineVal(a, n-1, k) :
  hlineOK(a[n-1]) && hlineKey(a[n-1]) == k ? hlineVal(a[n-1]) : ""

// the header entry's text, and what it declares
fn hdrText(file *File) string = file.entries[msgkey("", "")].MsgStr
fn hasHdrOf(file *File, k string) bool = has(file.entries, msgkey("", "")) && hasLine(splitarr(hdrText(file), "\n"), splitn(hdrText(file), "\n"), k)
fn hdrOf(file *File, k string) string = hasHdrOf(file, k) ? lineVal(splitarr(hdrText(file), "\n"), splitn(hdrText(file), "\n"), k) : ""
// the cached header map, when present, is that of the header entry
fn hdrsInv(file *File) bool = file.headers != nil ==>
  (forall k string :: {has(file.headers, k)} has(file.headers, k) == hasHdrOf(file, k) && (has(file.headers, k) ==> file.headers[k] == hdrOf(file, k)))
fn fileInv(file *File) bool = entriesInv(file) && hdrsInv(file) && pluralInv(file)

// the plural rule a Plural-Forms header value declares
fn ruleRE() string = "^\\s*nplurals\\s*=\\s*(\\d)\\s*;\\s*plural\\s*=\\s*(.*)\\s*;$"
fn ruleOK(h string) bool = h != "" && rxcount(ruleRE(), h) == 1
fn ruleForms(h string) int = ruleOK(h) && intok(rxgroups(ruleRE(), h)[1]) ? intval(rxgroups(ruleRE(), h)[1]) : 0
fn ruleIdx(h string, n int64) int =
  ruleOK(h) && intok(rxgroups(ruleRE(), h)[1]) && evalok(rxgroups(ruleRE(), h)[2], n) ? evalv(rxgroups(ruleRE(), h)[2], n) : -1

fn pluralIs(p *plural, h string) bool = p != nil && p.totalForms == ruleForms(h) && p.fn != nil &&
  (forall n int64 :: call(p.fn, n) == ruleIdx(h, n))
fn pluralInv(file *File) bool = file.plural != nil ==> pluralIs(file.plural, hdrOf(file, "Plural-Forms"))
fn warm(file *File) bool = file.headers != nil && file.plural != nil

fn fileX(file *File, ctxt, id string, args []any) string =
  has(file.entries, msgkey(ctxt, id)) && file.entries[msgkey(ctxt, id)].MsgStr != ""
    ? fmtx(file.entries[msgkey(ctxt, id)].MsgStr, args) : fmtx(id, args)

fn entryXN(e *Entry, h string, id, id2 string, n int64, args []any) string =
  e.MsgID2 == "" && len(e.MsgStrN) == 0 ? (e.MsgStr != "" ? fmtx(e.MsgStr, args) : fmtx(id, args)) :
  ruleForms(h) <= 0 ? defplural(id, id2, n, args) :
  ruleIdx(h, n) < 0 || ruleIdx(h, n) >= ruleForms(h) || ruleIdx(h, n) >= len(e.MsgStrN) || e.MsgStrN[ruleIdx(h, n)] == "" ? defplural(id, id2, n, args) :
  fmtx(e.MsgStrN[ruleIdx(h, n)], args)

fn fileXN(file *File, ctxt, id, id2 string, n int64, args []any) string =
  has(file.entries, msgkey(ctxt, id)) ? entryXN(file.entries[msgkey(ctxt, id)], hdrOf(file, "Plural-Forms"), id, id2, n, args)
    : defplural(id, id2, n, args)

// the header and rule caches of a catalog that has not used them yet
locs cold(file *File) = file.plural == nil ? file.plural : nothing, file.headers == nil ? file.headers : nothing

func (*File).X(file, ctxt, id, args) (r)
  root C06
  requires fileInv(file)
  ensures r == old(fileX(file, ctxt, id, args))
  modifies nothing

func (*File).XN64(file, ctxt, id, id2, n, args) (r)
  root C04, C06
  requires fileInv(file)
  ensures r == old(fileXN(file, ctxt, id, id2, n, args))
  ensures fileInv(file)
  modifies cold(file)

func parsePlural(forms) (p)
  root C04
  internal
  ensures pluralIs(p, forms)
  ensures fresh(p)
  modifies nothing

func (*File).initPlural(file) ()
  internal
  requires fileInv(file)
  ensures file.plural != nil
  ensures fileInv(file)
  modifies cold(file)

func (*File).initHeader(file) ()
  internal
  requires fileInv(file)
  ensures file.headers != nil
  ensures fileInv(file)
  modifies file.headers == nil ? file.headers : nothing
  loopinv i iter, h map[string]string ::: forall k string :: {has(h, k)} has(h, k) == hasLine(splitarr(hdrText(file), "\n"), i, k) && (has(h, k) ==> h[k] == lineVal(splitarr(hdrText(file), "\n"), i, k))
  loopinv h map[string]string ::: h != nil && fresh(h)

func (*File).GetHeader(file, name) (value, ok)
  root C13
  requires fileInv(file)
  ensures ok == hasHdrOf(file, name) && value == hdrOf(file, name)
  ensures fileInv(file)
  ensures file.headers != nil
  modifies file.headers == nil ? file.headers : nothing

func (*File).Lang(file) (r)
  root C13
  requires fileInv(file)
  ensures r == hdrOf(file, "Language")
  ensures fileInv(file)
  ensures file.headers != nil
  modifies file.headers == nil ? file.headers : nothing

fn entKey(e *Entry) string = msgkey(e.MsgCtxt, e.MsgID)
fn headerWarm(file *File) bool = has(file.entries, msgkey("", "")) ==> warm(file)

func (*File).AddEntry(file, e) ()
  root C13
  requires fileInv(file) && e != nil
  ensures has(file.entries, entKey(e)) && file.entries[entKey(e)] == e
  ensures forall k string :: {has(file.entries, k)} k != entKey(e) ==> has(file.entries, k) == old(has(file.entries, k)) && (has(file.entries, k) ==> file.entries[k] == old(file.entries[k]))
  ensures fileInv(file)
  ensures file.entries == old(file.entries) || fresh(file.entries)
  ensures old(headerWarm(file)) ==> headerWarm(file)
  modifies file.entries, mapof(file.entries), file.headers, file.plural

package github.com/youthlin/t

fn torInv(tor Translator) bool = tor != nil && (typeis(tor, *translator.File) ==> fileInv(tor.(*translator.File)))
fn trInv(tr *Translation) bool = tr != nil && (forall l string :: {has(tr.langs, l)} has(tr.langs, l) ==> torInv(tr.langs[l]))
fn noopInv() bool = global(trNoop) != nil && (forall l string :: {has(global(trNoop).langs, l)} !has(global(trNoop).langs, l))
fn tsInv(ts *Translations) bool = ts != nil && noopInv() && global(noopTranslator) == mkiface(zero(*nooptor), *nooptor) &&
  (forall d string :: {has(ts.domains, d)} has(ts.domains, d) ==> trInv(ts.domains[d]))

fn trOf(ts *Translations) *Translation = has(ts.domains, ts.domain) ? ts.domains[ts.domain] : global(trNoop)
fn torOf(ts *Translations) Translator = has(trOf(ts).langs, ts.locale) ? trOf(ts).langs[ts.locale] : global(noopTranslator)

fn torX(tor Translator, ctxt, id string, args []any) string =
  typeis(tor, *translator.File) ? fileX(tor.(*translator.File), ctxt, id, args) :
  typeis(tor, *nooptor) ? fmtx(id, args) : invoke("X", tor, ctxt, id, args)
fn torXN(tor Translator, ctxt, id, id2 string, n int64, args []any) string =
  typeis(tor, *translator.File) ? fileXN(tor.(*translator.File), ctxt, id, id2, n, args) :
  typeis(tor, *nooptor) ? defplural(id, id2, n, args) : invoke("XN64", tor, ctxt, id, id2, n, args)

fn lookX(ts *Translations, ctxt, id string, args []any) string = torX(torOf(ts), ctxt, id, args)
fn lookXN(ts *Translations, ctxt, id, id2 string, n int64, args []any) string = torXN(torOf(ts), ctxt, id, id2, n, args)

// Every file of a catalog set has its header and rule caches filled.
fn tsWarm(ts *Translations) bool =
  (forall d, l string :: {has(ts.domains[d].langs, l)} has(ts.domains, d) && has(ts.domains[d].langs, l) ==> torWarm(ts.domains[d].langs[l]))
fn torWarm(tor Translator) bool = typeis(tor, *translator.File) ==> warm(tor.(*translator.File))

locs coldTor(tor Translator) =
  typeis(tor, *translator.File) && tor.(*translator.File).plural == nil ? tor.(*translator.File).plural : nothing,
  typeis(tor, *translator.File) && tor.(*translator.File).headers == nil ? tor.(*translator.File).headers : nothing

func (*nooptor).X(tor, ctxt, id, args) (r)
  ensures r == old(fmtx(id, args))
  modifies nothing

func (*nooptor).XN64(tor, ctxt, id, id2, n, args) (r)
  ensures r == old(defplural(id, id2, n, args))
  modifies nothing

func (*Translations).X(ts, ctxt, id, args) (r)
  root C01, C06, C12
  requires tsInv(ts)
  ensures r == old(lookX(ts, ctxt, id, args))
  modifies nothing

func (*Translations).XN64(ts, ctxt, id, id2, n, args) (r)
  root C02, C06, C12
  requires tsInv(ts)
  requires {C12} tsWarm(ts)
  ensures r == old(lookXN(ts, ctxt, id, id2, n, args))
  modifies coldTor(torOf(ts))
  modifies {C12} nothing

// ---- shorthands: methods

func (*Translations).T(ts, id, args) (r)
  root C05, C12
  requires tsInv(ts)
  ensures r == old(lookX(ts, "", id, args))
  modifies nothing

func (*Translations).N(ts, id, id2, n, args) (r)
  root C05, C12
  requires tsInv(ts)
  requires {C12} tsWarm(ts)
  ensures r == old(lookXN(ts, "", id, id2, n, args))
  modifies coldTor(torOf(ts))
  modifies {C12} nothing

func (*Translations).N1(ts, id, n, args) (r)
  root C05, C12
  requires tsInv(ts)
  requires {C12} tsWarm(ts)
  ensures r == old(lookXN(ts, "", id, "", n, args))
  modifies coldTor(torOf(ts))
  modifies {C12} nothing

func (*Translations).N1_64(ts, id, n, args) (r)
  root C05, C12
  requires tsInv(ts)
  requires {C12} tsWarm(ts)
  ensures r == old(lookXN(ts, "", id, "", n, args))
  modifies coldTor(torOf(ts))
  modifies {C12} nothing

func (*Translations).N64(ts, id, id2, n, args) (r)
  root C05, C12
  requires tsInv(ts)
  requires {C12} tsWarm(ts)
  ensures r == old(lookXN(ts, "", id, id2, n, args))
  modifies coldTor(torOf(ts))
  modifies {C12} nothing

func (*Translations).XN(ts, ctxt, id, id2, n, args) (r)
  root C05, C12
  requires tsInv(ts)
  requires {C12} tsWarm(ts)
  ensures r == old(lookXN(ts, ctxt, id, id2, n, args))
  modifies coldTor(torOf(ts))
  modifies {C12} nothing

func (*Translations).XN1(ts, ctxt, id, n, args) (r)
  root C05, C12
  requires tsInv(ts)
  requires {C12} tsWarm(ts)
  ensures r == old(lookXN(ts, ctxt, id, "", n, args))
  modifies coldTor(torOf(ts))
  modifies {C12} nothing

func (*Translations).XN1_64(ts, ctxt, id, n, args) (r)
  root C05, C12
  requires tsInv(ts)
  requires {C12} tsWarm(ts)
  ensures r == old(lookXN(ts, ctxt, id, "", n, args))
  modifies coldTor(torOf(ts))
  modifies {C12} nothing

// ---- shorthands: package level, on the current global translations

func T(id, args) (r)
  root C05, C12
  requires {C05,C12} tsInv(global(global))
  ensures {C05,C12} r == old(lookX(global(global), "", id, args))
  modifies nothing
  trusted {C20,C21,C22,C23} the tool's own diagnostics are some text (proved under C05, C12)

func N(id, id2, n, args) (r)
  root C05, C12
  requires tsInv(global(global))
  requires {C12} tsWarm(global(global))
  ensures r == old(lookXN(global(global), "", id, id2, n, args))
  modifies coldTor(torOf(global(global)))
  modifies {C12} nothing

func N1(id, n, args) (r)
  root C05, C12
  requires tsInv(global(global))
  requires {C12} tsWarm(global(global))
  ensures r == old(lookXN(global(global), "", id, "", n, args))
  modifies coldTor(torOf(global(global)))
  modifies {C12} nothing

func N1_64(id, n, args) (r)
  root C05, C12
  requires tsInv(global(global))
  requires {C12} tsWarm(global(global))
  ensures r == old(lookXN(global(global), "", id, "", n, args))
  modifies coldTor(torOf(global(global)))
  modifies {C12} nothing

func N64(id, id2, n, args) (r)
  root C05, C12
  requires tsInv(global(global))
  requires {C12} tsWarm(global(global))
  ensures r == old(lookXN(global(global), "", id, id2, n, args))
  modifies coldTor(torOf(global(global)))
  modifies {C12} nothing

func XN(ctxt, id, id2, n, args) (r)
  root C05, C12
  requires tsInv(global(global))
  requires {C12} tsWarm(global(global))
  ensures r == old(lookXN(global(global), ctxt, id, id2, n, args))
  modifies coldTor(torOf(global(global)))
  modifies {C12} nothing

func XN1(ctxt, id, n, args) (r)
  root C05, C12
  requires tsInv(global(global))
  requires {C12} tsWarm(global(global))
  ensures r == old(lookXN(global(global), ctxt, id, "", n, args))
  modifies coldTor(torOf(global(global)))
  modifies {C12} nothing

func XN1_64(ctxt, id, n, args) (r)
  root C05, C12
  requires tsInv(global(global))
  requires {C12} tsWarm(global(global))
  ensures r == old(lookXN(global(global), ctxt, id, "", n, args))
  modifies coldTor(torOf(global(global)))
  modifies {C12} nothing

func X(ctxt, id, args) (r)
  root C05, C12
  requires tsInv(global(global))
  ensures r == old(lookX(global(global), ctxt, id, args))
  modifies nothing

func XN64(ctxt, id, id2, n, args) (r)
  root C05, C12
  requires tsInv(global(global))
  requires {C12} tsWarm(global(global))
  ensures r == old(lookXN(global(global), ctxt, id, id2, n, args))
  modifies coldTor(torOf(global(global)))
  modifies {C12} nothing

func (noop).T(m, id) (r)
  root C05
  ensures r == id
  modifies nothing
func (noop).N(m, id, id2) (r, r2)
  root C05
  ensures r == id && r2 == id2
  modifies nothing
func (noop).X(m, ctxt, id) (r, r2)
  root C05
  ensures r == ctxt && r2 == id
  modifies nothing
func (noop).XN(m, ctxt, id, id2) (r, r2, r3)
  root C05
  ensures r == ctxt && r2 == id && r3 == id2
  modifies nothing
