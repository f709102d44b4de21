// Saving catalogs.
package github.com/youthlin/t/translator

// ---- the order of saved entries
rec cmtPair(p list string, n int) string = n <= 0 ? "" : cmtPair(p, n-1) + (intok(p[n-1]) ? fmtverb("10d", intval(p[n-1])) : p[n-1])
rec cmtItems(its list string, n int) string = n <= 0 ? "" : cmtItems(its, n-1) + cmtPair(splitarr(its[n-1], ":"), splitn(its[n-1], ":"))
rec cmtLine(c string) string = prefixof("#:", c) ? "#:" + cmtItems(splitarr(c[2:], " "), splitn(c[2:], " ")) : ""
rec cmtLines(cs list string, n int) string = n <= 0 ? "" : cmtLines(cs, n-1) + cmtLine(cs[n-1])

func (*Entry).getLineString(e) (r)
  root C19
  requires e != nil
  ensures r == cmtLines(e.MsgCmts, len(e.MsgCmts))
  pure
  loopinv in !Split i iter, p over []string, s phi []string ::: catS(s, len(s)) == cmtPair(p, i)
  loopinv in Split i iter, p over []string, s phi []string ::: catS(s, len(s)) == "#:" + cmtItems(p, i)
  loopinv in HasPrefix i iter, p over []string, s phi []string ::: catS(s, len(s)) == cmtLines(p, i)

rec sortKey(e *Entry) string = e.MsgID == "" ? "" : cmtLines(e.MsgCmts, len(e.MsgCmts)) + entKey(e)
func (*Entry).getSortKey(e) (r)
  requires e != nil
  ensures r == sortKey(e)
  pure

lemma {C15,C16,C17,C19} sortKeyHdr(e *Entry)
  ensures (sortKey(e) == "") == (e.MsgID == "")
  on sortKey
  trigger sortKey(e)
fn entLess(a, b *Entry) bool = sortKey(a) < sortKey(b) || sortKey(a) == sortKey(b) && entKey(a) < entKey(b)
fn keyed(file *File) bool = forall k string :: {has(file.entries, k)} has(file.entries, k) ==> file.entries[k] != nil && entKey(file.entries[k]) == k

// every entry once, in an order that the entries alone determine, the header first
func (*File).SortedEntry(file) (r)
  root C19
  requires file != nil && keyed(file)
  ensures len(r) == len(file.entries)
  ensures forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && has(file.entries, entKey(r[i])) && file.entries[entKey(r[i])] == r[i]
  ensures forall k string :: {has(file.entries, k)} has(file.entries, k) ==> (exists i int :: {r[i]} 0 <= i && i < len(r) && r[i] == file.entries[k])
  ensures forall i, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) ==> entLess(r[i], r[j])
  ensures forall i, j int :: {r[i], r[j]} 0 <= i && i < j && j < len(r) && r[j].MsgID == "" ==> r[i].MsgID == ""
  assumes forall i int :: {r[i]} {ghost("sorted", file)[i]} 0 <= i && i < len(r) ==> ghost("sorted", file)[i] == ref(r[i])
  note ghost("sorted", file) names the list SortedEntry gave last
  modifies ghost("sorted", file)
  loopinv it miter, es []*Entry ::: len(es) == itern(it) && (es == nil || fresh(es)) &&
    (forall j int :: {es[j]} {iterkey(it, j)} 0 <= j && j < len(es) ==> es[j] != nil && es[j] == file.entries[iterkey(it, j)])

// ---- MO files
ufn encle32(n int) string
rec u32(n int) int = n % 4294967296
fn entAt(a #Ints, i int) *Entry = cast(a[i], *Entry)
rec moID(e *Entry) string = (e.MsgCtxt == "" ? "" : e.MsgCtxt + "\x04") + e.MsgID + (e.IsPlural ? "\x00" + e.MsgID2 : "")
rec moStr(e *Entry) string = len(e.MsgStrN) > 0 ? joinS(e.MsgStrN, len(e.MsgStrN), "\x00") : e.MsgStr
rec moHead(n int) string = encle32(2500072158) + encle32(0) + encle32(u32(n)) + encle32(75) + encle32(u32(75 + 8*n)) + encle32(0) + encle32(0) + encle32(43) + "ThisFileIsGenerateBy:github.com/youthlin/t\x00"
rec idLen(a #Ints, n int) int = n <= 0 ? 0 : idLen(a, n-1) + len(moID(entAt(a, n-1))) + 1
rec strLen(a #Ints, n int) int = n <= 0 ? 0 : strLen(a, n-1) + len(moStr(entAt(a, n-1))) + 1
rec idTab(a #Ints, n int, base int) string = n <= 0 ? "" : idTab(a, n-1, base) + encle32(u32(len(moID(entAt(a, n-1))))) + encle32(u32(base + idLen(a, n-1)))
rec strTab(a #Ints, n int, base int) string = n <= 0 ? "" : strTab(a, n-1, base) + encle32(u32(len(moStr(entAt(a, n-1))))) + encle32(u32(base + strLen(a, n-1)))
rec idText(a #Ints, n int) string = n <= 0 ? "" : idText(a, n-1) + moID(entAt(a, n-1)) + "\x00"
rec strText(a #Ints, n int) string = n <= 0 ? "" : strText(a, n-1) + moStr(entAt(a, n-1)) + "\x00"
fn moIdBase(n int) int = 75 + 16*n
fn moStrBase(a #Ints, n int) int = moIdBase(n) + idLen(a, n)
fn moFile(a #Ints, n int) string = moHead(n) + idTab(a, n, moIdBase(n)) + strTab(a, n, moStrBase(a, n)) + idText(a, n) + strText(a, n)

func moMsgID(e) (r)
  root C17
  requires e != nil
  ensures r == moID(e)
  pure
func moMsgStr(e) (r)
  root C17
  requires e != nil
  ensures r == moStr(e)
  pure

func (*File).SaveAsMo(f, w) (err)
  root C17, C19
  requires f != nil && keyed(f) && w != nil
  ensures err == nil ==> ghost("out", w) == old(ghost("out", w)) + moFile(ghost("sorted", f), len(f.entries))
  modifies ghost("out", w), ghost("sorted", f)
  loopinv i iter, b *bytes.Buffer, o phi int ::: ghost("buf", b) == moHead(len(f.entries)) + idTab(ghost("sorted", f), i, moIdBase(len(f.entries))) && o == moIdBase(len(f.entries)) + idLen(ghost("sorted", f), i)
  loopinv i iter, b *bytes.Buffer, o phi int ::: ghost("buf", b) == moHead(len(f.entries)) + idTab(ghost("sorted", f), len(f.entries), moIdBase(len(f.entries))) + strTab(ghost("sorted", f), i, moStrBase(ghost("sorted", f), len(f.entries))) && o == moStrBase(ghost("sorted", f), len(f.entries)) + strLen(ghost("sorted", f), i)
  loopinv i iter, b *bytes.Buffer ::: ghost("buf", b) == moHead(len(f.entries)) + idTab(ghost("sorted", f), len(f.entries), moIdBase(len(f.entries))) + strTab(ghost("sorted", f), len(f.entries), moStrBase(ghost("sorted", f), len(f.entries))) + idText(ghost("sorted", f), i)
  loopinv i iter, b *bytes.Buffer ::: ghost("buf", b) == moHead(len(f.entries)) + idTab(ghost("sorted", f), len(f.entries), moIdBase(len(f.entries))) + strTab(ghost("sorted", f), len(f.entries), moStrBase(ghost("sorted", f), len(f.entries))) + idText(ghost("sorted", f), len(f.entries)) + strText(ghost("sorted", f), i)

// the file written is a file the reader accepts, and addresses the texts
axiom on(encle32) :: forall n int :: {encle32(n)} len(encle32(n)) == 4 && (0 <= n && n < 4294967296 ==> le32(encle32(n)) == n)
lemma {C17} tabLen(a #Ints, n, b int)
  ensures n >= 0 ==> len(idTab(a, n, b)) == 8*n && len(strTab(a, n, b)) == 8*n && len(idText(a, n)) == idLen(a, n) && len(strText(a, n)) == strLen(a, n)
  induct n
lemma {C17} lenMono(a #Ints, n, i int)
  requires 0 <= i && i <= n
  ensures 0 <= idLen(a, i) && idLen(a, i) <= idLen(a, n) && 0 <= strLen(a, i) && strLen(a, i) <= strLen(a, n)
  induct n
lemma {C17} idSlot(a #Ints, n, b, i int)
  requires 0 <= i && i < n
  ensures idTab(a, n, b)[8*i:8*i+4] == encle32(u32(len(moID(entAt(a, i))))) && idTab(a, n, b)[8*i+4:8*i+8] == encle32(u32(b + idLen(a, i)))
  use tabLen(a, n-1, b)
  use tabLen(a, i, b)
  hide moID, moStr, u32
  induct n
  gen n
lemma {C17} strSlot(a #Ints, n, b, i int)
  requires 0 <= i && i < n
  ensures strTab(a, n, b)[8*i:8*i+4] == encle32(u32(len(moStr(entAt(a, i))))) && strTab(a, n, b)[8*i+4:8*i+8] == encle32(u32(b + strLen(a, i)))
  use tabLen(a, n-1, b)
  use tabLen(a, i, b)
  hide moID, moStr, u32
  induct n
  gen n
lemma {C17} idAt(a #Ints, n, i int)
  requires 0 <= i && i < n
  ensures idText(a, n)[idLen(a, i) : idLen(a, i) + len(moID(entAt(a, i))) + 1] == moID(entAt(a, i)) + "\x00"
  use tabLen(a, n-1, 0)
  use lenMono(a, n-1, i)
  use lenMono(a, n-1, i+1)
  hide moID, moStr, u32
  induct n
  gen n
lemma {C17} strAt(a #Ints, n, i int)
  requires 0 <= i && i < n
  ensures strText(a, n)[strLen(a, i) : strLen(a, i) + len(moStr(entAt(a, i))) + 1] == moStr(entAt(a, i)) + "\x00"
  use tabLen(a, n-1, 0)
  use lenMono(a, n-1, i)
  use lenMono(a, n-1, i+1)
  hide moID, moStr, u32
  induct n
  gen n

axiom on(le16) :: le16(encle32(0)[0:2]) == 0 && le16(encle32(0)[2:4]) == 0
lemma {C17} moShape(a #Ints, n int, c string)
  requires n >= 0 && c == moFile(a, n) && len(c) < 4294967296
  ensures len(c) == 75 + 16*n + idLen(a, n) + strLen(a, n)
  ensures !moBig(c) && le32(c[0:4]) == 2500072158
  ensures moU16(c, 4) == 0 && moU16(c, 6) == 0
  ensures moN(c) == n && moO(c) == 75 && moT(c) == 75 + 8*n
  use tabLen(a, n, moIdBase(n))
  use tabLen(a, n, moStrBase(a, n))
  use lenMono(a, n, 0)
  hide idTab, strTab, idText, strText, idLen, strLen
lemma {C17} moSlots(a #Ints, n int, c string, i int)
  requires n >= 0 && c == moFile(a, n) && len(c) < 4294967296 && 0 <= i && i < n
  ensures moLen(c, 75, i) == len(moID(entAt(a, i))) && moOff(c, 75, i) == moIdBase(n) + idLen(a, i)
  ensures moLen(c, 75 + 8*n, i) == len(moStr(entAt(a, i))) && moOff(c, 75 + 8*n, i) == moStrBase(a, n) + strLen(a, i)
  use tabLen(a, n, moIdBase(n))
  use tabLen(a, n, moStrBase(a, n))
  use lenMono(a, n, i)
  use lenMono(a, n, i+1)
  use moShape(a, n, c)
  use idSlot(a, n, moIdBase(n), i)
  use strSlot(a, n, moStrBase(a, n), i)
  hide idTab, strTab, idText, strText, moID, moStr
lemma {C17} moTexts(a #Ints, n int, c string, i int)
  requires n >= 0 && c == moFile(a, n) && len(c) < 4294967296 && 0 <= i && i < n
  ensures moText(c, 75, i) == moID(entAt(a, i)) && moText(c, 75 + 8*n, i) == moStr(entAt(a, i))
  ensures moTextOK(c, 75, i) && moTextOK(c, 75 + 8*n, i)
  use tabLen(a, n, moIdBase(n))
  use tabLen(a, n, moStrBase(a, n))
  use lenMono(a, n, i)
  use lenMono(a, n, i+1)
  use moShape(a, n, c)
  use moSlots(a, n, c, i)
  use idAt(a, n, i)
  use strAt(a, n, i)
  hide idTab, strTab, idText, strText, moID, moStr, moLen, moOff
lemma {C17} moTextsGood(a #Ints, n int, c string, m int)
  requires n >= 0 && c == moFile(a, n) && len(c) < 4294967296 && m <= n
  ensures moTextsOK(c, m)
  use moTexts(a, n, c, m-1)
  use moShape(a, n, c)
  hide idTab, strTab, idText, strText, moID, moStr, moLen, moOff
  induct m
  gen m
// SaveAsMo writes a file that ReadMo accepts (moOK), whose texts are those of the entries
lemma {C17} moReadsBack(a #Ints, n int, c string, i int)
  requires n >= 0 && c == moFile(a, n) && len(c) < 4294967296
  ensures moOK(c) && moN(c) == n
  ensures 0 <= i && i < n ==> moText(c, moO(c), i) == moID(entAt(a, i)) && moText(c, moT(c), i) == moStr(entAt(a, i))
  use moTextsGood(a, n, c, n)
  use moTexts(a, n, c, i)
  use moShape(a, n, c)
  use lenMono(a, n, 0)
  hide idLen, strLen, moHead, idTab, strTab, idText, strText, moID, moStr, moLen, moOff, moText
// and whose decoded context, id and plural id are the entry's
lemma {C17} idx4(a string, b string)
  requires indexof(a, "\x04") < 0
  ensures indexof(a + "\x04" + b, "\x04") == len(a)
lemma {C17} idx0(a string, b string)
  requires indexof(a, "\x00") < 0
  ensures indexof(a + "\x00" + b, "\x00") == len(a)
lemma {C17} none4(a string, b string)
  requires indexof(a, "\x04") < 0 && indexof(b, "\x04") < 0
  ensures indexof(a + b, "\x04") < 0
rec moPart(e *Entry) string = e.MsgID + (e.IsPlural ? "\x00" + e.MsgID2 : "")
lemma {C17} moPartOf(e *Entry)
  requires indexof(e.MsgCtxt, "\x04") < 0 && indexof(e.MsgID, "\x04") < 0 && indexof(e.MsgID2, "\x04") < 0
  ensures moIdPart(moID(e)) == moPart(e) && moCtx(moID(e)) == e.MsgCtxt
  use idx4(e.MsgCtxt, moPart(e))
  use none4(e.MsgID, "\x00" + e.MsgID2)
  use none4("\x00", e.MsgID2)
lemma {C17} moFields(e *Entry)
  requires indexof(e.MsgCtxt, "\x04") < 0 && indexof(e.MsgID, "\x04") < 0 && indexof(e.MsgID2, "\x04") < 0 && indexof(e.MsgID, "\x00") < 0
  ensures moCtx(moID(e)) == e.MsgCtxt && moId(moID(e)) == e.MsgID && moPl(moID(e)) == e.IsPlural && (e.IsPlural ==> moId2(moID(e)) == e.MsgID2)
  use moPartOf(e)
  use idx0(e.MsgID, e.MsgID2)
  hide moIdPart, moID, moCtx

// ---- PO and POT files
// split is a function of the text; what it gives is the text in pieces
ufn splitN(s string) int
ufn splitPcs(s string) #Strs
func split0(long, threshold, depth) (r)
  root C15, C16
  ensures catS(r, len(r)) == long && len(r) >= 1
  ensures r == nil || fresh(r)
  modifies nothing
func split(long, threshold) (r)
  root C15, C16
  ensures catS(r, len(r)) == long
  ensures r == nil || fresh(r)
  assumes threshold == 77 ==> len(r) == splitN(long) && (forall i int :: {r[i]} {splitPcs(long)[i]} 0 <= i && i < len(r) ==> r[i] == splitPcs(long)[i])
  note split is a function of its arguments (it uses only strings operations)
  modifies nothing

rec qlines(a #Strs, n int) string = n <= 0 ? "" : qlines(a, n-1) + quote(a[n-1]) + "\n"
rec poText(k, s string) string = k + " " + qlines(splitPcs(s), splitN(s))
func writeString(buf, k, content) ()
  root C15, C16
  requires buf != nil
  ensures ghost("buf", buf) == old(ghost("buf", buf)) + poText(k, content)
  modifies ghost("buf", buf)
  quiet
  loopinv i iter ::: ghost("buf", buf) == old(ghost("buf", buf)) + k + " " + qlines(splitPcs(content), i)

rec cmtText(cs list string, n int) string = n <= 0 ? "" : cmtText(cs, n-1) + cs[n-1] + "\n"
rec poStrs(ss list string, n int) string = n <= 0 ? "" : poStrs(ss, n-1) + poText("msgstr[" + itoa(n-1) + "]", ss[n-1])
rec poSource(e *Entry) string = cmtText(e.MsgCmts, len(e.MsgCmts)) + (e.MsgCtxt == "" ? "" : poText("msgctxt", e.MsgCtxt)) + poText("msgid", e.MsgID)
rec poEnt(e *Entry) string = poSource(e) + (e.IsPlural ? poText("msgid_plural", e.MsgID2) : "") + (e.MsgStr == "" ? "" : poText("msgstr", e.MsgStr)) +
  poStrs(e.MsgStrN, len(e.MsgStrN)) + "\n"
rec potEnt(e *Entry) string = poSource(e) + (e.IsPlural ? poText("msgid_plural", e.MsgID2) + poText("msgstr[0]", "") + poText("msgstr[1]", "") :
  poText("msgstr", e.MsgID == "" ? e.MsgStr : "")) + "\n"
rec poFile(a #Ints, n int) string = n <= 0 ? "" : poFile(a, n-1) + poEnt(entAt(a, n-1))
rec potFile(a #Ints, n int) string = n <= 0 ? "" : potFile(a, n-1) + potEnt(entAt(a, n-1))

func (*File).SaveAsPo(f, w) (err)
  root C15, C19
  requires f != nil && keyed(f) && w != nil
  ensures err == nil ==> ghost("out", w) == old(ghost("out", w)) + poFile(ghost("sorted", f), len(f.entries))
  modifies ghost("out", w), ghost("sorted", f)
  loopinv i iter, b *bytes.Buffer, p over []*Entry ::: ghost("buf", b) == poFile(ghost("sorted", f), i)
  loopinv i iter, b *bytes.Buffer, e *Entry, p over []string ::: same(p, e.MsgCmts) && ghost("buf", b) == pre(ghost("buf", b)) + cmtText(e.MsgCmts, i)
  loopinv i iter, b *bytes.Buffer, e *Entry, p over []string ::: same(p, e.MsgStrN) && ghost("buf", b) == pre(ghost("buf", b)) + poStrs(e.MsgStrN, i)

func (*File).SaveAsPot(f, w) (err)
  root C16, C19
  requires f != nil && keyed(f) && w != nil
  ensures err == nil ==> ghost("out", w) == old(ghost("out", w)) + potFile(ghost("sorted", f), len(f.entries))
  modifies ghost("out", w), ghost("sorted", f)
  loopinv i iter, b *bytes.Buffer, p over []*Entry ::: ghost("buf", b) == potFile(ghost("sorted", f), i)
  loopinv i iter, b *bytes.Buffer, e *Entry, p over []string ::: same(p, e.MsgCmts) && ghost("buf", b) == pre(ghost("buf", b)) + cmtText(e.MsgCmts, i)
