// Plural expressions.
package github.com/youthlin/t/plurals

// ---- operators: C semantics over 64-bit integers, every nonzero value true
fn b2i(b bool) int64 = b ? 1 : 0
fn isBin(t string) bool = t == "*" || t == "/" || t == "%" || t == "+" || t == "-" || t == ">>" || t == "<<" || t == ">" || t == "<" || t == ">=" ||
  t == "<=" || t == "==" || t == "!=" || t == "&" || t == "|" || t == "^" || t == "&&" || t == "||"
fn isPre(t string) bool = t == "+" || t == "-" || t == "~" || t == "!"

fn stk(s *myListener) []int64 = s.stack
// all but the last k values are as before
fn below(s *myListener, k int) bool = forall j int :: {s.stack[j]} 0 <= j && j < old(len(s.stack)) - k ==> s.stack[j] == old(arr(s.stack))[old(off(s.stack)) + j]
fn was(s *myListener, k int) int64 = old(arr(s.stack))[old(off(s.stack)) + old(len(s.stack)) - k]
fn top(s *myListener) int64 = s.stack[len(s.stack) - 1]

func Eval(ctx, exp, n) (result, err)
  assumes result == evalv(exp, n) && err == evalerr(exp, n)
  modifies nothing
  trusted
