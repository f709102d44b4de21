// MO files.
package github.com/youthlin/t/translator

ufn le32(s string) int
ufn be32(s string) int
ufn le16(s string) int
ufn be16(s string) int

// ---- what the bytes of an MO file denote
fn moBig(c string) bool = le32(c[0:4]) == 3725722773
fn moU32(c string, at int) int = moBig(c) ? be32(c[at:at+4]) : le32(c[at:at+4])
fn moU16(c string, at int) int = moBig(c) ? be16(c[at:at+2]) : le16(c[at:at+2])
fn moHdrOK(c string) bool = len(c) >= 28 && (moBig(c) || le32(c[0:4]) == 2500072158) && moU16(c, 4) <= 1 && moU16(c, 6) <= 1
fn moN(c string) int = moU32(c, 8)
fn moO(c string) int = moU32(c, 12)
fn moT(c string) int = moU32(c, 16)
fn moTabOK(c string, tab, n int) bool = n <= 0 || tab + 8*n <= len(c)
rec moLen(c string, tab, i int) int = moU32(c, tab + 8*i)
rec moOff(c string, tab, i int) int = moU32(c, tab + 8*i + 4)
fn moTextOK(c string, tab, i int) bool = moLen(c, tab, i) == 0 || moOff(c, tab, i) + moLen(c, tab, i) <= len(c)
rec moText(c string, tab, i int) string = c[moOff(c, tab, i) : moOff(c, tab, i) + moLen(c, tab, i)]
rec moTextsOK(c string, n int) bool = n <= 0 || moTextsOK(c, n-1) && moTextOK(c, moO(c), n-1) && moTextOK(c, moT(c), n-1)
fn moOK(c string) bool = moHdrOK(c) && moTabOK(c, moO(c), moN(c)) && moTabOK(c, moT(c), moN(c)) && moTextsOK(c, moN(c))

// the original split at EOT into context and id, at NUL into id and plural id
rec moIdPart(t string) string = indexof(t, "\x04") >= 0 ? t[indexof(t, "\x04")+1:] : t
rec moCtx(t string) string = indexof(t, "\x04") >= 0 ? t[:indexof(t, "\x04")] : ""
fn moPl(t string) bool = indexof(moIdPart(t), "\x00") >= 0
rec moId(t string) string = moPl(t) ? moIdPart(t)[:indexof(moIdPart(t), "\x00")] : moIdPart(t)
rec moId2(t string) string = moPl(t) ? moIdPart(t)[indexof(moIdPart(t), "\x00")+1:] : ""
fn moEntIs(e *Entry, t, s string) bool = e.MsgCtxt == moCtx(t) && e.MsgID == moId(t) && e.MsgID2 == moId2(t) && e.IsPlural == moPl(t) &&
  e.MsgStr == (moPl(t) ? "" : s) && len(e.MsgCmts) == 0 && len(e.MsgStrN) == (moPl(t) ? splitn(s, "\x00") : 0) &&
  (forall m int :: {e.MsgStrN[m]} 0 <= m && m < len(e.MsgStrN) ==> e.MsgStrN[m] == splitarr(s, "\x00")[m])
fn moKey(c string, i int) string = msgkey(moCtx(moText(c, moO(c), i)), moId(moText(c, moO(c), i)))
// the last of the first n slots with the key k
rec moLast(c string, n int, k string) int = n <= 0 ? -1 : moKey(c, n-1) == k ? n-1 : moLast(c, n-1, k)

fn moFileIs(file *File, c string, n int) bool = forall k string :: {has(file.entries, k)}
  has(file.entries, k) == (moLast(c, n, k) >= 0) &&
  (has(file.entries, k) ==> file.entries[k] != nil && fresh(file.entries[k]) && moEntIs(file.entries[k], moText(c, moO(c), moLast(c, n, k)), moText(c, moT(c), moLast(c, n, k))))

// every text of a file with sound texts is sound
lemma moTextsAll(c string, n, i, tab int)
  requires moTextsOK(c, n) && 0 <= i && i < n
  ensures moTextOK(c, moO(c), i) && moTextOK(c, moT(c), i)
  induct n
  on moTextsOK
  trigger moTextsOK(c, n), moLen(c, tab, i)

func ReadMo(content) (r, err)
  root C18
  trusted {C09}
  ensures r == nil || fresh(r)
  ensures err == nil ==> r != nil && fileInv(r)
  ensures {C18} (err == nil) == moOK(bytes(content))
  ensures {C18} err == nil ==> moFileIs(r, bytes(content), moN(bytes(content)))
  ensures err != nil ==> r == nil
  assumes err == moErr(bytes(content))
  assumes err == nil ==> hdrOf(r, "Language") == moLang(bytes(content)) && srcOf(r) == bytes(content) && srcMo(r)
  allocbound len(content)
  modifies nothing
  loopinv i iter, m []lenOff, r *bytes.Reader ::: ghost("rdp", r) == moO(bytes(content)) + 8*i && ghost("rdc", r) == bytes(content) && moTabOK(bytes(content), moO(bytes(content)), i) && len(m) == i &&
    (forall j int :: {m[j]} 0 <= j && j < i ==> m[j].Length == moLen(bytes(content), moO(bytes(content)), j) && m[j].OffSet == moOff(bytes(content), moO(bytes(content)), j))
  loopinv i iter, m []lenOff, r *bytes.Reader ::: ghost("rdp", r) == moT(bytes(content)) + 8*i && ghost("rdc", r) == bytes(content) && moTabOK(bytes(content), moT(bytes(content)), i) && len(m) == i &&
    (forall j int :: {m[j]} 0 <= j && j < i ==> m[j].Length == moLen(bytes(content), moT(bytes(content)), j) && m[j].OffSet == moOff(bytes(content), moT(bytes(content)), j))
  loopinv in AddEntry r *bytes.Reader ::: ghost("rdc", r) == bytes(content)
  loopinv in AddEntry i iter ::: moTextsOK(bytes(content), i)
  loopinv in AddEntry i iter, file *File ::: fileInv(file) && (file.entries == nil || fresh(file.entries))
  loopinv in AddEntry i iter, file *File ::: moFileIs(file, bytes(content), i)
