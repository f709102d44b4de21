// PO and POT files: what the lines denote.
package github.com/youthlin/t/translator

// 0 blank, 1 comment, 2 msgctxt, 3 msgid_plural, 4 msgid, 5 msgstr[n], 6 msgstr, 7 continuation, 8 anything else;
// n is the number of forms read so far
rec poClass(l string, n int) int = trimspace(l) == "" ? 0 : prefixof("#", l) ? 1 : prefixof("msgctxt ", l) ? 2 : prefixof("msgid_plural ", l) ? 3 :
  prefixof("msgid ", l) ? 4 : prefixof("msgstr[" + itoa(n) + "] ", l) ? 5 : prefixof("msgstr ", l) ? 6 : prefixof("\"", l) ? 7 : 8
rec poArg(l string, c int, n int) string = trimspace(c == 2 ? l[8:] : c == 3 ? l[13:] : c == 4 ? l[6:] : c == 5 ? l[9+len(itoa(n)):] : c == 6 ? l[7:] : l)

// the entry that begins at line s, after the lines before k
rec poN(a #Strs, s, k int) int = k <= s ? 0 : poN(a, s, k-1) + (poClass(a[k-1], poN(a, s, k-1)) == 5 ? 1 : 0)
fn poC(a #Strs, s, k int) int = poClass(a[k], poN(a, s, k))
rec poSt(a #Strs, s, k int) string = k <= s ? "" : poC(a, s, k-1) == 2 ? "ctxt" : poC(a, s, k-1) == 3 ? "msgid_plural" : poC(a, s, k-1) == 4 ? "msgid" :
  poC(a, s, k-1) == 5 ? "msgstr[]" : poC(a, s, k-1) == 6 ? "msgstr" : poSt(a, s, k-1)
rec poVal(a #Strs, s, k int) string = unquote(poArg(a[k], poC(a, s, k), poN(a, s, k)))
// line k begins the next entry
rec poBound(a #Strs, s, k int) bool = poC(a, s, k) == 1 || poC(a, s, k) == 2 ? poSt(a, s, k) != "" :
  poC(a, s, k) == 3 ? poSt(a, s, k) == "msgid_plural" || poSt(a, s, k) == "msgstr" || poSt(a, s, k) == "msgstr[]" :
  poC(a, s, k) == 4 ? poSt(a, s, k) == "msgid" || poSt(a, s, k) == "msgid_plural" || poSt(a, s, k) == "msgstr" || poSt(a, s, k) == "msgstr[]" :
  poC(a, s, k) == 5 ? poSt(a, s, k) == "msgstr" : poC(a, s, k) == 6 && poSt(a, s, k) == "msgstr[]"
// line k is malformed
rec poBad(a #Strs, s, k int) bool = poC(a, s, k) == 8 || poC(a, s, k) >= 2 && !unquoteok(poArg(a[k], poC(a, s, k), poN(a, s, k)))
rec poClean(a #Strs, s, k int) bool = k <= s || poClean(a, s, k-1) && !poBound(a, s, k-1) && !poBad(a, s, k-1)

fn poMore(a #Strs, s, k, c int, st string) bool = poC(a, s, k) == c || poC(a, s, k) == 7 && poSt(a, s, k) == st
rec poCtxt(a #Strs, s, k int) string = k <= s ? "" : poCtxt(a, s, k-1) + (poMore(a, s, k-1, 2, "ctxt") ? poVal(a, s, k-1) : "")
rec poId2(a #Strs, s, k int) string = k <= s ? "" : poId2(a, s, k-1) + (poMore(a, s, k-1, 3, "msgid_plural") ? poVal(a, s, k-1) : "")
rec poId(a #Strs, s, k int) string = k <= s ? "" : poId(a, s, k-1) + (poMore(a, s, k-1, 4, "msgid") ? poVal(a, s, k-1) : "")
rec poStr(a #Strs, s, k int) string = k <= s ? "" : poStr(a, s, k-1) + (poMore(a, s, k-1, 6, "msgstr") ? poVal(a, s, k-1) : "")
rec poPl(a #Strs, s, k int) bool = k > s && (poPl(a, s, k-1) || poC(a, s, k-1) == 3)
rec poForm(a #Strs, s, k, j int) string = k <= s ? "" : poC(a, s, k-1) == 5 && j == poN(a, s, k-1) ? poVal(a, s, k-1) :
  poC(a, s, k-1) == 7 && poSt(a, s, k-1) == "msgstr[]" && j == poN(a, s, k-1) - 1 ? poForm(a, s, k-1, j) + poVal(a, s, k-1) : poForm(a, s, k-1, j)
rec poCmtN(a #Strs, s, k int) int = k <= s ? 0 : poCmtN(a, s, k-1) + (poC(a, s, k-1) == 1 ? 1 : 0)
rec poCmt(a #Strs, s, k, j int) string = k <= s ? "" : poC(a, s, k-1) == 1 && j == poCmtN(a, s, k-1) ? a[k-1] : poCmt(a, s, k-1, j)

fn poTexts(e *Entry, a #Strs, s, k int) bool = e.MsgCtxt == poCtxt(a, s, k) && e.MsgID == poId(a, s, k) && e.MsgID2 == poId2(a, s, k) && e.MsgStr == poStr(a, s, k) && e.IsPlural == poPl(a, s, k)
fn poForms(e *Entry, a #Strs, s, k int) bool = len(e.MsgStrN) == poN(a, s, k) && (forall j int :: {e.MsgStrN[j]} 0 <= j && j < len(e.MsgStrN) ==> e.MsgStrN[j] == poForm(a, s, k, j))
fn poCmts(e *Entry, a #Strs, s, k int) bool = len(e.MsgCmts) == poCmtN(a, s, k) && (forall j int :: {e.MsgCmts[j]} 0 <= j && j < len(e.MsgCmts) ==> e.MsgCmts[j] == poCmt(a, s, k, j))
fn poEntIs(e *Entry, a #Strs, s, k int) bool = poTexts(e, a, s, k) && poForms(e, a, s, k) && poCmts(e, a, s, k)

fn poLines(r *reader) bool = r != nil && off(r.lines) == 0 && r.totalLine == len(r.lines) && -1 <= r.lineNo && r.lineNo < len(r.lines)
func readEntry(r) (e, err)
  root C14
  requires poLines(r)
  ensures e == nil || fresh(e)
  ensures r.lineNo >= old(r.lineNo) && r.lineNo <= len(r.lines)
  ensures err == nil ==> e != nil && r.lineNo > old(r.lineNo) && r.lineNo + 1 < len(r.lines) && poClean(old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo + 1) &&
    poBound(old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo + 1)
  ensures err == nil ==> poEntIs(e, old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo + 1)
  ensures err == global(errNoEntry) || err == global(io.EOF) ==> e != nil && r.lineNo == len(r.lines) && poClean(old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo) &&
    (err == global(errNoEntry)) == (poSt(old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo) == "")
  ensures err == global(io.EOF) ==> poEntIs(e, old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo)
  ensures err != nil && err != global(errNoEntry) && err != global(io.EOF) ==> e == nil && !errIs(err, global(io.EOF)) && r.lineNo > old(r.lineNo) && r.lineNo < len(r.lines) && poClean(old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo) &&
    poBad(old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo) && !poBound(old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo)
  modifies r.lineNo
  loopinv p phi string ::: r.lineNo >= old(r.lineNo) && r.lineNo < len(r.lines) && poClean(old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo + 1) && p == poSt(old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo + 1)
  loopinv e *Entry ::: poTexts(e, old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo + 1)
  loopinv e *Entry ::: (e.MsgStrN == nil || fresh(e.MsgStrN)) && (e.MsgCmts == nil || fresh(e.MsgCmts)) && (e.MsgStrN == nil || ref(e.MsgStrN) != ref(e.MsgCmts))
  loopinv e *Entry ::: poForms(e, old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo + 1)
  loopinv e *Entry ::: poCmts(e, old(arr(r.lines)), old(r.lineNo) + 1, r.lineNo + 1)

lemma {C14} poNSt(a #Strs, s, k int)
  requires 0 <= s
  ensures 0 <= poN(a, s, k) && (poSt(a, s, k) == "msgstr[]" ==> 0 < poN(a, s, k)) && 0 <= poCmtN(a, s, k)
  induct k
  on poN
  trigger poSt(a, s, k), poN(a, s, k)

// ---- the entries of a file: line k belongs to the entry that begins at line poStart(k)
rec poStart(a #Strs, k int) int = k <= 0 ? 0 : poBound(a, poStart(a, k-1), k) ? k : poStart(a, k-1)
// none of the lines before k is malformed
rec poSound(a #Strs, k int) bool = k <= 0 || poSound(a, k-1) && !poBad(a, poStart(a, k-1), k-1)
// an entry ends before line m (of n)
rec poEnd(a #Strs, n, m int) bool = m == n ? poSt(a, poStart(a, m-1), m) != "" : poStart(a, m) == m
// the PO reader keeps the translated entries, the POT reader all
rec poKept(a #Strs, s, k int, all bool) bool = all || poStr(a, s, k) != "" || poN(a, s, k) > 0
rec poKey(a #Strs, s, k int) string = msgkey(poCtxt(a, s, k), poId(a, s, k))
// where the last kept entry with the key that ends at or before line m ends, or 0
rec poLast(a #Strs, n, m int, all bool, key string) int = m <= 0 ? 0 : poEnd(a, n, m) && poKept(a, poStart(a, m-1), m, all) && poKey(a, poStart(a, m-1), m) == key ? m : poLast(a, n, m-1, all, key)

fn poNoCR(c string) string = replaceall(c, "\r", "")
fn poA(c string) #Strs = splitarr(poNoCR(c), "\n")
fn poNL(c string) int = splitn(poNoCR(c), "\n")
fn poOK(c string) bool = len(c) > 0 && poSound(poA(c), poNL(c))
fn poFileIs(file *File, a #Strs, n, m int, all bool) bool = forall k string :: {has(file.entries, k)}
  has(file.entries, k) == (poLast(a, n, m, all, k) > 0) &&
  (has(file.entries, k) ==> file.entries[k] != nil && fresh(file.entries[k]) && poEntIs(file.entries[k], a, poStart(a, poLast(a, n, m, all, k) - 1), poLast(a, n, m, all, k)))

lemma {C14} poRun(a #Strs, s, k int)
  requires 0 <= s && s < k && poStart(a, s) == s && poClean(a, s, k)
  ensures poStart(a, k-1) == s && (poSound(a, s) ==> poSound(a, k))
  induct k
  gen a, s
  on poClean
  trigger poClean(a, s, k), poStart(a, s)

lemma {C14} poRunLast(a #Strs, n, s, k int, all bool, key string)
  requires 0 <= s && s < k && k <= n && poStart(a, s) == s && poClean(a, s, k)
  ensures poLast(a, n, k-1, all, key) == poLast(a, n, s, all, key)
  induct k
  on poLast
  trigger poClean(a, s, k), poLast(a, n, k, all, key)

lemma {C14} poSoundMono(a #Strs, j, n int)
  requires 0 <= j && j <= n && poSound(a, n)
  ensures poSound(a, j)
  induct n

lemma {C14} poBase(a #Strs, k int)
  requires k <= 0
  ensures poStart(a, k) == 0 && poSound(a, k)
  on poSound
  trigger poSound(a, k)

lemma {C14} poBaseLast(a #Strs, n, k int, all bool, key string)
  requires k <= 0
  ensures poLast(a, n, k, all, key) == 0
  on poLast
  trigger poLast(a, n, k, all, key)

lemma {C14} poNext(a #Strs, n, s, k int)
  requires 0 <= s && s < k && k < n && poStart(a, s) == s && poClean(a, s, k) && poBound(a, s, k)
  ensures poStart(a, k) == k
  hide poN, poClass, poSt, poBound, poBad, poClean, poCtxt, poId, poStr
  use poRun(a, s, k)
  on poBound
  trigger poClean(a, s, k), poBound(a, s, k), poStart(a, s)

// an entry that begins at line s and runs up to line k
lemma {C14} poStep(a #Strs, n, s, k int, all bool, key string)
  requires 0 <= s && s < k && k <= n && poStart(a, s) == s && poClean(a, s, k)
  ensures k < n && poBound(a, s, k) || k == n && poSt(a, s, k) != "" ==>
    poLast(a, n, k, all, key) == ((all || poStr(a, s, k) != "" || poN(a, s, k) > 0) && msgkey(poCtxt(a, s, k), poId(a, s, k)) == key ? k : poLast(a, n, s, all, key))
  ensures k == n && poSt(a, s, k) == "" ==> poLast(a, n, k, all, key) == poLast(a, n, s, all, key)
  hide poN, poClass, poSt, poBound, poBad, poClean, poCtxt, poId, poStr
  use poRun(a, s, k)
  use poNext(a, n, s, k)
  use poRunLast(a, n, s, k, all, key)
  on poLast
  trigger poClean(a, s, k), poLast(a, n, k, all, key)

lemma {C14} poFail(a #Strs, n, s, k int)
  requires 0 <= s && s <= k && k < n && poStart(a, s) == s && poClean(a, s, k) && poBad(a, s, k) && !poBound(a, s, k)
  ensures !poSound(a, n)
  hide poN, poClass, poSt, poBound, poBad, poClean, poCtxt, poId, poStr
  use poRun(a, s, k)
  use poSoundMono(a, k+1, n)
  on poBad
  trigger poClean(a, s, k), poBad(a, s, k), poSound(a, n)

func readPo(content, pot) (r, err)
  hide poN, poClass, poSt, poBound, poBad, poClean, poCtxt, poId, poId2, poStr, poPl, poForm, poCmtN, poCmt, poVal, poArg, poStart, poSound, poEnd, poLast, hasLine, lineVal
  ensures r == nil || fresh(r)
  ensures {C14} (err == nil) == poOK(bytes(content))
  ensures err == nil ==> r != nil && fileInv(r)
  ensures {C14} err == nil ==> poFileIs(r, poA(bytes(content)), poNL(bytes(content)), poNL(bytes(content)), pot)
  ensures err != nil ==> r == nil
  modifies nothing
  loopinv r *reader, file *File ::: poLines(r) && fresh(r) && arr(r.lines) == poA(bytes(content)) && len(r.lines) == poNL(bytes(content)) && r.lineNo + 1 < len(r.lines)
  loopinv r *reader ::: poStart(poA(bytes(content)), r.lineNo + 1) == r.lineNo + 1 && poSound(poA(bytes(content)), r.lineNo + 1)
  loopinv file *File ::: fresh(file) && fileInv(file) && (file.entries == nil || fresh(file.entries))
  loopinv r *reader, file *File ::: poFileIs(file, poA(bytes(content)), poNL(bytes(content)), r.lineNo + 1, pot)

func ReadPot(content) (r, err)
  root C14
  ensures r == nil || fresh(r)
  ensures {C14} (err == nil) == poOK(bytes(content))
  ensures err == nil ==> r != nil && fileInv(r)
  ensures {C14} err == nil ==> poFileIs(r, poA(bytes(content)), poNL(bytes(content)), poNL(bytes(content)), true)
  modifies nothing

func ReadPo(content) (r, err)
  root C14
  trusted {C07,C08,C09} proved under C14, except that an unnamed function of the content gives the error and the language
  ensures r == nil || fresh(r)
  ensures err == nil ==> r != nil && fileInv(r)
  ensures {C14} (err == nil) == poOK(bytes(content))
  ensures {C14} err == nil ==> poFileIs(r, poA(bytes(content)), poNL(bytes(content)), poNL(bytes(content)), false)
  assumes {C07,C08,C09} err == poErr(bytes(content))
  assumes {C07,C08,C09} err == nil ==> hdrOf(r, "Language") == poLang(bytes(content)) && srcOf(r) == bytes(content) && !srcMo(r)
  modifies nothing
