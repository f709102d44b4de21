// Formatting and the default plural choice.
package github.com/youthlin/t/f

ufn sprintf(format string, args #Seq) string

// The text Format gives: verbatim without arguments; otherwise what fmt.Sprintf
// prints for the format followed by a directive that consumes one more, empty,
// argument (by the fmt documentation: the same text, never an EXTRA notice).
fn fmtx(format string, args []any) string =
  len(args) == 0 ? format : sprintf(format + "%[" + itoa(len(args)+1) + "]s", seqapp(args, ""))

fn defplural(id string, id2 string, n int64, args []any) string =
  id2 != "" && n != 1 ? fmtx(id2, args) : fmtx(id, args)

func Format(format, args) (r)
  ensures {C01,C02,C05,C06,C12} r == old(fmtx(format, args))
  modifies nothing
  root C06

func DefaultPlural(id, id2, n, args) (r)
  ensures {C01,C02,C05,C06,C12} r == old(defplural(id, id2, n, args))
  modifies nothing
  root C06
