// xtemplate: keyword declarations, extraction, collection.
package github.com/youthlin/t/cmd/xtemplate/internal

// ---- C20: keyword declarations
// the i-th piece of s, blanks trimmed
fn kwpart(s, sep string, i int) string = trimspace(splitarr(s, sep)[i])
fn kwnum(s string) bool = intok(s)
fn kwctx(s string) bool = suffixof("c", s) && intok(chopc(s))
fn chopc(s string) string = s[:len(s)-1]

// positions p: id | id,plural | ctxc,id | ctxc,id,plural
fn posOK(p string) bool =
  splitn(p, ",") == 1 ? intok(kwpart(p, ",", 0)) :
  splitn(p, ",") == 2 ? (kwctx(kwpart(p, ",", 0)) || intok(kwpart(p, ",", 0)) && !suffixof("c", kwpart(p, ",", 0))) && intok(kwpart(p, ",", 1)) :
  splitn(p, ",") == 3 && kwctx(kwpart(p, ",", 0)) && intok(kwpart(p, ",", 1)) && intok(kwpart(p, ",", 2))
fn posCtx(p string) int = splitn(p, ",") > 1 && suffixof("c", kwpart(p, ",", 0)) ? intval(chopc(kwpart(p, ",", 0))) : 0
fn posID(p string) int = splitn(p, ",") > 1 && suffixof("c", kwpart(p, ",", 0)) ? intval(kwpart(p, ",", 1)) : intval(kwpart(p, ",", 0))
fn posID2(p string) int = splitn(p, ",") == 3 ? intval(kwpart(p, ",", 2)) :
  splitn(p, ",") == 2 && !suffixof("c", kwpart(p, ",", 0)) ? intval(kwpart(p, ",", 1)) : 0

// one declaration d, blanks trimmed
fn declOK(d string) bool = splitn(d, ":") == 1 ? kwpart(d, ":", 0) != "" : splitn(d, ":") == 2 && kwpart(d, ":", 0) != "" && posOK(splitarr(d, ":")[1])
fn declIs(k Keyword, d string) bool = k.Name == kwpart(d, ":", 0) &&
  (splitn(d, ":") == 1 ? k.MsgCtxt == 0 && k.MsgID == 1 && k.MsgID2 == 0 :
    k.MsgCtxt == posCtx(splitarr(d, ":")[1]) && k.MsgID == posID(splitarr(d, ":")[1]) && k.MsgID2 == posID2(splitarr(d, ":")[1]))
rec declsOK(s string, n int) bool = n <= 0 || declsOK(s, n-1) && declOK(kwpart(s, ";", n-1))
lemma declsAll(s string, m, n int)
  requires 0 <= m && m < n && declsOK(s, n)
  ensures declOK(kwpart(s, ";", m))
  induct n
  on declsOK
  trigger declsOK(s, n), splitarr(s, ";")[m]

func ParseKeywords(str) (result, err)
  root C20
  ensures (err == nil) == declsOK(str, splitn(str, ";"))
  ensures err == nil ==> len(result) == splitn(str, ";") && (forall i int :: {result[i]} 0 <= i && i < len(result) ==> declIs(result[i], kwpart(str, ";", i)))
  ensures err != nil ==> len(result) == 0
  modifies nothing
  loopinv i iter ::: declsOK(str, i)
  loopinv i iter, result []Keyword ::: len(result) == i && (forall j int :: {result[j]} 0 <= j && j < i ==> declIs(result[j], kwpart(str, ";", j)))
  loopinv i iter, index []string ::: forall j int :: {index[j]} 0 <= j && j < len(index) ==> index[j] == (j < i ? trimspace(pre(index[j])) : pre(index[j]))
