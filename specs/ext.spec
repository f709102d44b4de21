// Names of the uninterpreted functions the models of external code use.
package github.com/youthlin/t
ufn rxcount(pat, s string) int
ufn rxgroups(pat, s string) #Strs
ufn rxall(pat, s string) #Strs
ufn intok(s string) bool
ufn intval(s string) int64
ufn trimspace(s string) string
ufn splitn(s, sep string) int
ufn splitarr(s, sep string) #Strs
ufn lastindex(s, sub string) int
ufn quote(s string) string
ufn unquote(s string) string
ufn unquoteok(s string) bool
ufn errIs(e, t error) bool
ufn replaceall(s, a, b string) string
// the elements a[0..n) with sep between them
rec joinS(a list string, n int, sep string) string = n <= 0 ? "" : n == 1 ? a[0] : joinS(a, n-1, sep) + sep + a[n-1]
// and with nothing between them
rec catS(a list string, n int) string = n <= 0 ? "" : catS(a, n-1) + a[n-1]
lemma {C15,C16,C17,C19} catSame(a, c list string, n int)
  requires forall i int :: {a[i]} {c[i]} 0 <= i && i < n ==> a[i] == c[i]
  ensures catS(a, n) == catS(c, n)
  induct n
// what the model of append states about catS
lemma {C15,C16,C17,C19} catApp(a, b, c list string, n, m int)
  requires n >= 0 && m >= 0
  requires forall i int :: {a[i]} {c[i]} 0 <= i && i < n ==> c[i] == a[i]
  requires forall i int :: {b[i]} {c[n+i]} 0 <= i && i < m ==> c[n+i] == b[i]
  ensures catS(c, n+m) == catS(a, n) + catS(b, m)
  use catSame(a, c, n)
  induct m
  gen m
