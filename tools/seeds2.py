#!/usr/bin/env python3
import sys
sys.path.insert(0, "/verif/tools")
from seedlib import main
import seeds1
PRE = seeds1.PRE.replace('import ("fmt"', 'import ("bytes";"io";"fmt"') + '''
var _ = bytes.NewReader
var _ io.Writer
func save(fl *translator.File, how func(*translator.File, io.Writer) error) []byte { var b bytes.Buffer; if err := how(fl, &b); err != nil { fmt.Println(err); os.Exit(1) }; return b.Bytes() }
'''
S = []
def s(id, prop, edits, body, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, main=PRE + body, needs=needs, breaks=breaks, **k))

s("c15-split-space", "C15", [("translator/wrap.go", '''		left := long[:index+1]
		right := long[index+1:]
		return append(split0(left, threshold, depth+1), right)''', '''		left := strings.TrimRight(long[:index+1], " ") + " "
		right := long[index+1:]
		return append(split0(left, threshold, depth+1), right)''')], '''
func main() { long := strings.Repeat("abcdefghij ", 8) + " tail"
 fl := file("Language: de\\n", &translator.Entry{MsgID: "a", MsgStr: long})
 g, err := translator.ReadPo(save(fl, (*translator.File).SaveAsPo)); must("err", err, nil)
 must("text", g.X("", "a"), long) }''', "a line over the threshold with two blanks before its last word", "a blank is lost when the text is written")

s("c15-plural-forms-empty", "C15", [("translator/po.go", '''		for i, str := range entry.MsgStrN {
			writeString''', '''		for i, str := range entry.MsgStrN {
			if str == "" && i > 1 {
				continue
			}
			writeString''')], '''
func main() { fl := file("Language: pl\\nPlural-Forms: nplurals=4; plural=n%4;\\n", &translator.Entry{MsgID: "a", MsgID2: "as", IsPlural: true, MsgStrN: []string{"f0", "f1", "", "f3"}})
 g, err := translator.ReadPo(save(fl, (*translator.File).SaveAsPo)); must("err", err, nil)
 must("n=3", g.XN64("", "a", "as", 3), "f3") }''', "an entry with an empty third form followed by a non-empty one", "the forms after the hole are not read back")

s("c16-plural-context", "C16", [("translator/pot.go", '''			if entry.MsgID == "" { // header''', '''			if entry.MsgID == "" || entry.MsgCtxt != "" && entry.MsgID == entry.MsgStr { // header''')], '''
func main() { fl := file("Language: de\\n", &translator.Entry{MsgCtxt: "c", MsgID: "OK", MsgStr: "OK"})
 if strings.Contains(string(save(fl, (*translator.File).SaveAsPot)), "msgstr \\"OK\\"") { fmt.Println("translation kept in the template"); os.Exit(1) } }''', "an entry with a context whose translation equals its id", "the template keeps a translation")

s("c17-offset-rune", "C17", [("translator/mo.go", '''		// length
		msgStr := moMsgStr(entry)
		msgStrLen := len(msgStr)''', '''		// length
		msgStr := moMsgStr(entry)
		msgStrLen := len([]byte(strings.ToValidUTF8(msgStr, "")))''')], '''
func main() { fl := file("Language: de\\n", &translator.Entry{MsgID: "a", MsgStr: "x\\xffy"}, &translator.Entry{MsgID: "b", MsgStr: "B"})
 g, err := translator.ReadMo(save(fl, (*translator.File).SaveAsMo)); must("err", err, nil)
 must("a", fmt.Sprintf("%q", g.X("", "a")), fmt.Sprintf("%q", "x\\xffy")); must("b", g.X("", "b"), "B") }''', "a translation that is not valid UTF-8", "lengths and offsets no longer address the texts written")

s("c17-strn-plural-only", "C17", [("translator/mo.go", '''	if entry.IsPlural {
		msgID += nul + entry.MsgID2
	}''', '''	if entry.IsPlural && entry.MsgID2 != "" {
		msgID += nul + entry.MsgID2
	}''')], '''
func main() { fl := file("Language: de\\nPlural-Forms: nplurals=2; plural=n != 1;\\n", &translator.Entry{MsgID: "a", IsPlural: true, MsgStrN: []string{"one", "many"}})
 g, err := translator.ReadMo(save(fl, (*translator.File).SaveAsMo)); must("err", err, nil)
 must("2", g.XN64("", "a", "as", 2), "many") }''', "a plural entry whose plural id is empty", "the entry is read back as a singular one")

s("c18-seek-cur", "C18", [("translator/mo.go", '''		if index := strings.Index(entry.MsgID, eot); index >= 0 {''', '''		if index := strings.LastIndex(entry.MsgID, eot); index >= 0 {''')], '''
func main() {
 le := func(n ...uint32) (b []byte) { for _, x := range n { b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24)) }; return }
 id := "c\\x04a\\x04b"
 b := append(le(0x950412de, 0, 1, 28, 36, 0, 0, uint32(len(id)), 44, 1, uint32(44+len(id)+1)), (id + "\\x00" + "T\\x00")...)
 fl, err := translator.ReadMo(b); must("err", err, nil)
 e := fl.SortedEntry()[0]
 must("ctxt", fmt.Sprintf("%q %q", e.MsgCtxt, e.MsgID), fmt.Sprintf("%q %q", "c", "a\\x04b")) }''', "an original with two EOT bytes", "context and id are split at the wrong EOT")

s("c18-big-endian-minor", "C18", [("translator/mo.go", '''	if h.Minor != 0 && h.Minor != 1 {''', '''	if h.Minor != 0 && h.Minor != 1 && bo == binary.LittleEndian {''')], '''
func main() {
 be := func(n ...uint32) (b []byte) { for _, x := range n { b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x)) }; return }
 _, err := translator.ReadMo(be(0x950412de, 7, 0, 28, 28, 0, 0))
 must("revision 0.7 rejected", err != nil, true) }''', "a big-endian file with an unsupported minor revision", "the file is accepted")


s("c19-tie-by-id", "C19", [("translator/file.go", "			return left.Key() < right.Key()", "			return left.MsgID < right.MsgID")], '''
func main() { var want string
 for i := 0; i < 60; i++ { fl := file("Language: de\\n"); for _, c := range []string{"a", "b", "c", "d", "e"} { fl.AddEntry(&translator.Entry{MsgCtxt: c, MsgStr: "x" + c}) }
  got := string(save(fl, (*translator.File).SaveAsPo)); if i == 0 { want = got }
  if got != want { fmt.Println("two saves of the same entries differ"); os.Exit(1) } } }''', "several entries with an empty id and different contexts", "the saved order depends on the map's iteration order")

s("c19-header-with-context", "C19", [("translator/entry.go", '''	if e.isHeader() {
		return "" // 排在最前''', '''	if e.isHeader() && len(e.MsgCmts) == 0 || e.Key() == "" {
		return "" // 排在最前''')], '''
func main() { fl := file("Language: de\\n", &translator.Entry{MsgCtxt: "zz", MsgStr: "h", MsgCmts: []string{"# note"}}, &translator.Entry{MsgID: "a", MsgStr: "A"})
 es := fl.SortedEntry(); must("second", es[1].MsgCtxt, "zz") }''', "an entry with an empty id, a context and comments", "an entry with an empty id is listed after ordinary ones")

s("c14-comment-eof", "C14", [("translator/po.go", '''				if previousLineState == "" {
					return entry, errNoEntry
				}''', '''				if previousLineState == "" || previousLineState == stateCtxt {
					return entry, errNoEntry
				}''')], '''
func main() { g, err := translator.ReadPot([]byte("msgid \\"a\\"\\nmsgstr \\"\\"\\n\\nmsgctxt \\"c\\""))
 must("err", err, nil)
 must("entries", len(g.SortedEntry()), 2) }''', "a template whose last entry is only a context line", "the entry is dropped by the template reader")

s("c14-unget-plural", "C14", [("translator/po.go", '''			if equalsAny(previousLineState, stateID2, stateStr, stateStrN) {''', '''			if equalsAny(previousLineState, stateID2, stateStr) {''')], '''
func main() { g, err := translator.ReadPot([]byte("msgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"x\\"\\nmsgid_plural \\"bs\\"\\nmsgstr[0] \\"y\\"\\n"))
 must("err", err, nil)
 must("entries", len(g.SortedEntry()), 2) }''', "an entry that begins with msgid_plural right after indexed forms", "the line is merged into the previous entry")
if __name__ == "__main__":
    main([x for x in S if x], sys.argv[1:])
