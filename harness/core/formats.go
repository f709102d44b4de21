package main

// C14..C19: a PO reader, an MO reader and an MO writer of our own.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/youthlin/t/translator"
)

type poEntry = translator.Entry

// refPo reads PO text line by line. Everything that starts an entry ends the
// one before it.
func refPo(content []byte, all bool) (out map[string]*poEntry, ok bool) {
	out = map[string]*poEntry{}
	if len(content) == 0 {
		return nil, false
	}
	var e poEntry
	last := "" // the field continuation lines extend
	flush := func() {
		if last != "" && (all || e.MsgStr != "" || len(e.MsgStrN) > 0) {
			c := e
			out[e.MsgCtxt+"\x04"+e.MsgID] = &c
		}
		e, last = poEntry{}, ""
	}
	is := func(names ...string) bool { return isIn(last, names) }
	for _, line := range strings.Split(strings.ReplaceAll(string(content), "\r", ""), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		if line[0] == '#' {
			if last != "" {
				flush()
			}
			e.MsgCmts = append(e.MsgCmts, line)
			continue
		}
		text := func(prefix string) (string, bool) {
			s, err := strconv.Unquote(strings.TrimSpace(line[len(prefix):]))
			return s, err == nil
		}
		field := func(prefix, name string, begins bool, set func(s string)) bool {
			if begins {
				flush()
			}
			last = name
			s, good := text(prefix)
			if good {
				set(s)
			}
			return good
		}
		good := true
		strn := func() string { return fmt.Sprintf("msgstr[%d] ", len(e.MsgStrN)) }
		switch {
		case strings.HasPrefix(line, "msgctxt "):
			good = field("msgctxt ", "ctxt", last != "", func(s string) { e.MsgCtxt += s })
		case strings.HasPrefix(line, "msgid_plural "):
			good = field("msgid_plural ", "id2", is("id2", "str", "strn"), func(s string) { e.MsgID2 += s; e.IsPlural = true })
		case strings.HasPrefix(line, "msgid "):
			good = field("msgid ", "id", is("id", "id2", "str", "strn"), func(s string) { e.MsgID += s })
		case strings.HasPrefix(line, strn()):
			if is("str") { // the form belongs to the next entry, which has none yet
				flush()
				if !strings.HasPrefix(line, strn()) {
					return nil, false
				}
			}
			good = field(strn(), "strn", false, func(s string) { e.MsgStrN = append(e.MsgStrN, s) })
		case strings.HasPrefix(line, "msgstr "):
			good = field("msgstr ", "str", is("strn"), func(s string) { e.MsgStr += s })
		case line[0] == '"':
			var s string
			s, good = text("")
			switch last {
			case "ctxt":
				e.MsgCtxt += s
			case "id":
				e.MsgID += s
			case "id2":
				e.MsgID2 += s
			case "str":
				e.MsgStr += s
			case "strn":
				e.MsgStrN[len(e.MsgStrN)-1] += s
			}
		default:
			good = false
		}
		if !good {
			return nil, false
		}
	}
	flush()
	return out, true
}

func entriesOf(f *translator.File) map[string]*poEntry {
	m := map[string]*poEntry{}
	for _, e := range f.SortedEntry() {
		m[e.MsgCtxt+"\x04"+e.MsgID] = e
	}
	return m
}

func showEntry(e *poEntry) string {
	if e == nil {
		return "nil"
	}
	return fmt.Sprintf("{cmts:%q ctxt:%q id:%q plural:%v id2:%q str:%q strN:%q}", []string(append([]string{}, e.MsgCmts...)), e.MsgCtxt, e.MsgID, e.IsPlural, e.MsgID2, e.MsgStr, append([]string{}, e.MsgStrN...))
}

func showAll(m map[string]*poEntry) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%q=%s\n", k, showEntry(m[k]))
	}
	return b.String()
}

var piecesOf = []string{"", "a", "b", "hello", "the quick brown fox ", " ", "  ", "\n", "\n\n", "\t", "\r", "\r\n", "\"", "\\", "\\n", "%d", "%s", "é", "世界", "\u00a0", "\u2028", "\ufeff", "\xff", "\xc3", "\x01", "\x1f", "\x7f", "'", "`", "#", "msgid ", "msgstr[0] \"x\"", "0123456789012345678901234567890123456789012345678901234567890123456789012345678", strings.Repeat("word ", 20)}

func (h *H) text() string {
	switch h.Intn(10) {
	case 0:
		return pick(h, []string{"a", "b", "c"})
	case 1:
		b := make([]byte, h.Intn(12))
		for i := range b {
			b[i] = byte(h.Intn(256))
		}
		return string(b)
	case 2:
		s := ""
		for i := h.Intn(40); i >= 0; i-- {
			s += pick(h, []string{"word ", "longerword ", "x", " ", "\n", "averyveryverylongwordwithoutblanks"})
		}
		return s
	}
	s := ""
	for i := 1 + h.Intn(5); i > 0; i-- {
		s += pick(h, piecesOf)
	}
	return s
}

func (h *H) cmts() (out []string) {
	for i := h.Intn(4); i > 0; i-- {
		out = append(out, pick(h, []string{"#", "# note", "#: a.go:1", "#: a.go:12 b.go:3", "#, fuzzy", "#. extracted", "#| msgid \"old\"", "#~ msgid \"x\"", "#: x", "#: index.html:1:2", "# é \t", "#:", "#: a.go:02"}))
	}
	return
}

// wellShaped: a translated entry
func (h *H) wellShaped(noSep bool) *poEntry {
	tx := func() string {
		s := h.text()
		if noSep {
			s = strings.NewReplacer("\x00", "0", "\x04", "4").Replace(s)
		}
		return s
	}
	e := &poEntry{MsgCmts: h.cmts(), MsgID: tx()}
	if h.chance(0.4) {
		e.MsgCtxt = tx()
	}
	if h.chance(0.05) {
		e.MsgID = ""
	}
	if e.MsgID != "" && h.chance(0.4) {
		e.IsPlural = true
		e.MsgID2 = tx()
		for i := h.Intn(5); i >= 0; i-- {
			e.MsgStrN = append(e.MsgStrN, tx())
		}
	} else {
		for e.MsgStr == "" {
			e.MsgStr = tx()
		}
	}
	return e
}

func (h *H) entries(noSep bool) (out []*poEntry) {
	for i := h.Intn(7); i > 0; i-- {
		out = append(out, h.wellShaped(noSep))
	}
	if h.chance(0.5) {
		out = append(out, &poEntry{MsgStr: "Language: xx\nPlural-Forms: nplurals=2; plural=n!=1;\n"})
	}
	return
}

func fileOf(es []*poEntry) *translator.File {
	f := new(translator.File)
	for _, e := range es {
		f.AddEntry(e)
	}
	return f
}

func show(es []*poEntry) (out []string) {
	for _, e := range es {
		out = append(out, showEntry(e))
	}
	return
}

// poText generates PO text from well-formed and stray lines
func (h *H) poText() []byte {
	var lines []string
	qs := func() string {
		switch h.Intn(12) {
		case 0:
			return pick(h, []string{"", "\"", "\"a", "a", "'a'", "`a`", "\"a\"b\"", "\"\\q\"", "\"a\\\"", "\"\\x\"", "\"a\" # c", "\"a\\u00e9\\101\\x41\""})
		case 1:
			return strconv.QuoteToASCII(h.text())
		}
		return strconv.Quote(pick(h, []string{"a", "b", "c", "", "one", "two\n", h.text()}))
	}
	cont := func() {
		for h.chance(0.25) {
			lines = append(lines, qs())
		}
	}
	junk := func() {
		if h.chance(0.1) {
			lines = append(lines, pick(h, []string{"", " ", "\t", "\u00a0", "#", "# c", "#: f:1", "\"tail\"", "msgid_plural \"q\"", "msgstr \"s\"", "msgstr[0] \"s0\"", "msgstr[1] \"s1\"", "msgstr[2] \"s2\"", "msgid \"j\"", "msgctxt \"jc\"", "  ", "msgid", "msgid\"x\"", " msgid \"x\"", "domain \"d\"", "x", "msgstr[0]\"x\"", "msgstr[a] \"x\"", "\"\\", "msgstr[01] \"x\""}))
		}
	}
	for i := h.Intn(5); i > 0; i-- {
		for h.chance(0.4) {
			lines = append(lines, pick(h, []string{"# c", "#", "#: a.go:1", "#, fuzzy", "#~ old"}))
		}
		junk()
		if h.chance(0.3) {
			lines = append(lines, "msgctxt "+qs())
			cont()
			junk()
		}
		if h.chance(0.97) {
			lines = append(lines, "msgid "+qs())
			cont()
			junk()
		}
		if h.chance(0.35) {
			lines = append(lines, "msgid_plural "+qs())
			cont()
			junk()
			for k := 0; k < h.Intn(13); k++ {
				lines = append(lines, fmt.Sprintf("msgstr[%d] ", k)+qs())
				cont()
				junk()
			}
		} else if h.chance(0.9) {
			lines = append(lines, "msgstr "+qs())
			cont()
			junk()
		}
		for h.chance(0.5) {
			lines = append(lines, pick(h, []string{"", "", " ", "\t"}))
		}
	}
	if h.chance(0.3) {
		lines = append(lines, pick(h, []string{"# trailing", "", " ", "#~ msgid \"obsolete\"", "msgid \"z\"", "msgstr \"z\""}))
	}
	s := strings.Join(lines, pick(h, []string{"\n", "\n", "\n", "\r\n"}))
	if h.chance(0.7) {
		s += "\n"
	}
	b := []byte(s)
	if h.chance(0.1) && len(b) > 0 {
		b[h.Intn(len(b))] = byte(h.Intn(256))
	}
	if h.chance(0.05) && len(b) > 0 {
		b = b[:h.Intn(len(b))]
	}
	return b
}

// ---- MO

func refMo(b []byte) (out map[string]*poEntry, ok, unsure bool) {
	u := func(bo binary.ByteOrder, at uint64) (uint32, bool) {
		if at+4 > uint64(len(b)) {
			return 0, false
		}
		return bo.Uint32(b[at:]), true
	}
	var bo binary.ByteOrder = binary.LittleEndian
	m, good := u(bo, 0)
	if !good {
		return nil, false, false
	}
	if m == 0xde120495 {
		bo = binary.BigEndian
	} else if m != 0x950412de {
		return nil, false, false
	}
	if len(b) < 28 {
		return nil, false, false
	}
	rev, _ := u(bo, 4)
	if rev>>16 > 1 || rev&0xffff > 1 {
		return nil, false, false
	}
	n, _ := u(bo, 8)
	o, _ := u(bo, 12)
	t, _ := u(bo, 16)
	out = map[string]*poEntry{}
	str := func(table uint32, i uint32) (string, bool) {
		l, ok1 := u(bo, uint64(table)+8*uint64(i))
		p, ok2 := u(bo, uint64(table)+8*uint64(i)+4)
		if !ok1 || !ok2 {
			return "", false
		}
		if l == 0 && uint64(p) > uint64(len(b)) {
			unsure = true // an empty text beyond the end
			return "", true
		}
		if uint64(p)+uint64(l) > uint64(len(b)) {
			return "", false
		}
		return string(b[p : uint64(p)+uint64(l)]), true
	}
	for i := uint32(0); i < n; i++ {
		id, ok1 := str(o, i)
		s, ok2 := str(t, i)
		if !ok1 || !ok2 {
			return nil, false, false
		}
		e := &poEntry{MsgStr: s}
		if k := strings.IndexByte(id, 4); k >= 0 {
			e.MsgCtxt, id = id[:k], id[k+1:]
		}
		e.MsgID = id
		if k := strings.IndexByte(id, 0); k >= 0 {
			e.MsgID, e.MsgID2 = id[:k], id[k+1:]
			e.IsPlural = true
			e.MsgStr = ""
			e.MsgStrN = strings.Split(s, "\x00")
		}
		out[e.MsgCtxt+"\x04"+e.MsgID] = e
	}
	return out, true, unsure
}

// moBytes builds an MO file with tables and texts anywhere
func (h *H) moBytes() []byte {
	var bo binary.ByteOrder = binary.LittleEndian
	if h.chance(0.5) {
		bo = binary.BigEndian
	}
	n := h.Intn(6)
	pad := func(b []byte) []byte {
		for k := h.Intn(5); k > 0 && h.chance(0.5); k-- {
			b = append(b, byte(h.Intn(256)))
		}
		return b
	}
	size := 28
	var hole = func(k int) int { p := size + h.Intn(4); size = p + k; return p }
	first := h.chance(0.5)
	var O, T int
	if first {
		O = hole(8 * n)
		T = hole(8 * n)
	} else {
		T = hole(8 * n)
		O = hole(8 * n)
	}
	b := make([]byte, size)
	put := func(at int, v uint32) { bo.PutUint32(b[at:], v) }
	put(0, 0x950412de)
	put(4, uint32(pick(h, []int{0, 0, 0, 1, 1 << 16, 1<<16 | 1})))
	put(8, uint32(n))
	put(12, uint32(O))
	put(16, uint32(T))
	put(20, uint32(h.Intn(3)))
	put(24, uint32(h.Intn(100)))
	for i := 0; i < n; i++ {
		id, s := h.text(), h.text()
		if h.chance(0.4) {
			id += "\x00" + h.text()
			for k := h.Intn(4); k > 0; k-- {
				s += "\x00" + h.text()
			}
		}
		if h.chance(0.4) {
			id = h.text() + "\x04" + id
		}
		for k, x := range []string{id, s} {
			at := O
			if k == 1 {
				at = T
			}
			at += 8 * i
			b = pad(b)
			p := len(b)
			if h.chance(0.1) { // share text with what is there
				p = h.Intn(len(b) + 1)
				put(at, uint32(h.Intn(len(b)-p+1)))
			} else {
				put(at, uint32(len(x)))
				b = append(b, x...)
				if h.chance(0.8) {
					b = append(b, 0)
				}
			}
			put(at+4, uint32(p))
		}
	}
	if h.chance(0.35) { // damage
		switch h.Intn(4) {
		case 0:
			b = b[:h.Intn(len(b)+1)]
		case 1:
			at := 4 * h.Intn(7)
			bo.PutUint32(b[at:], pick(h, []uint32{0, 1, 2, 0xffffffff, 0x7fffffff, 0x80000000, 0x950412de, 0xde120495, uint32(len(b)), uint32(len(b)) - 1, uint32(len(b)) + 1, 1 << 17, 3 << 16, 6, 7}))
		case 2:
			if n > 0 {
				at := pick(h, []int{O, T}) + 4*h.Intn(2*n)
				v := bo.Uint32(b[at:])
				bo.PutUint32(b[at:], pick(h, []uint32{0, 0xffffffff, 0x7fffffff, 1 << 30, uint32(len(b)), uint32(len(b)) - v, uint32(len(b)) + 1, v + 1, v - 1}))
			}
		case 3:
			if len(b) > 0 {
				b[h.Intn(len(b))] = byte(h.Intn(256))
			}
		}
	}
	return b
}

func init() {
	reg("C14", "PO and POT text assembled from well-formed and stray lines, with continuation lines, blank lines, CRs, bad quoting, byte damage and truncation, against a line state machine of our own; nontrivial: distinct texts", func(h *H) {
		one := func(b []byte) {
			for _, all := range []bool{false, true} {
				in := map[string]any{"text": string(b), "bytes": fmt.Sprintf("%x", b), "pot": all}
				h.run(in, func() {
					read := translator.ReadPo
					if all {
						read = translator.ReadPot
					}
					f, err := read(b)
					want, ok := refPo(b, all)
					if !h.eq(in, "accepted", err == nil, ok) || !ok {
						if err != nil && f != nil {
							h.fail(in, "a file and an error", "both", "one")
						}
						return
					}
					h.eq(in, "entries", showAll(entriesOf(f)), showAll(want))
				})
			}
		}
		for _, s := range []string{"", "\n", "#\n", "msgid \"a\"\nmsgstr \"b\"\n# c\n", "\"x\"\nmsgid \"a\"\nmsgstr \"b\"", "msgid \"a\"\nmsgstr[0] \"b\"\nmsgid \"c\"\nmsgstr[0] \"d\"\n", "msgstr \"x\"\nmsgstr[0] \"y\"\n"} {
			one([]byte(s))
		}
		for h.more() {
			one(h.poText())
		}
	})
	reg("C15", "catalogs of translated entries with arbitrary texts (control characters, invalid UTF-8, long and multi-line) saved as PO and read back; nontrivial: distinct catalogs", func(h *H) {
		for h.more() {
			es := h.entries(false)
			in := show(es)
			h.run(in, func() {
				f := fileOf(es)
				want := showAll(entriesOf(f))
				var b bytes.Buffer
				if err := f.SaveAsPo(&b); err != nil {
					h.fail(in, "SaveAsPo", err.Error(), "no error")
					return
				}
				h.eq(in, "catalog after saving", showAll(entriesOf(f)), want)
				if b.Len() == 0 {
					h.eq(in, "nothing written", want, "")
					return
				}
				g, err := translator.ReadPo(b.Bytes())
				if err != nil {
					h.fail(in, "ReadPo of\n"+b.String(), err.Error(), "no error")
					return
				}
				if got := showAll(entriesOf(g)); got != want {
					h.fail(in, "entries read back from\n"+b.String(), got, want)
				}
				if ref, ok := refPo(b.Bytes(), true); !ok || showAll(ref) != want {
					h.fail(in, "the text means something else\n"+b.String(), showAll(ref), want)
				}
			})
		}
	})
	reg("C16", "catalogs (translated or not) saved as POT and read back; nontrivial: distinct catalogs", func(h *H) {
		for h.more() {
			es := h.entries(false)
			for _, e := range es {
				if h.chance(0.3) {
					if e.MsgID != "" {
						e.MsgStr = ""
					}
					e.MsgStrN = nil
				}
			}
			in := show(es)
			h.run(in, func() {
				f := fileOf(es)
				before := showAll(entriesOf(f))
				want := map[string]*poEntry{}
				for k, e := range entriesOf(f) {
					c := *e
					c.MsgStrN = nil
					if c.IsPlural {
						c.MsgStrN = []string{"", ""}
						c.MsgStr = ""
					} else {
						c.MsgID2 = ""
						if c.MsgID != "" {
							c.MsgStr = ""
						}
					}
					want[k] = &c
				}
				var b bytes.Buffer
				if err := f.SaveAsPot(&b); err != nil {
					h.fail(in, "SaveAsPot", err.Error(), "no error")
					return
				}
				h.eq(in, "catalog after saving", showAll(entriesOf(f)), before)
				if b.Len() == 0 {
					h.eq(in, "nothing written", before, "")
					return
				}
				n := 0
				for _, l := range strings.Split(b.String(), "\n") {
					if strings.HasPrefix(l, "msgid ") {
						n++
					}
				}
				h.eq(in, "entries in the text", n, len(want))
				g, err := translator.ReadPot(b.Bytes())
				if err != nil {
					h.fail(in, "ReadPot of\n"+b.String(), err.Error(), "no error")
					return
				}
				if got := showAll(entriesOf(g)); got != showAll(want) {
					h.fail(in, "entries read back from\n"+b.String(), got, showAll(want))
				}
				if ref, ok := refPo(b.Bytes(), true); !ok || showAll(ref) != showAll(want) {
					h.fail(in, "the text means something else\n"+b.String(), showAll(ref), showAll(want))
				}
			})
		}
	})
	reg("C17", "catalogs without the MO separators saved as MO, decoded by a reader of our own and by ReadMo; nontrivial: distinct catalogs", func(h *H) {
		for h.more() {
			es := h.entries(true)
			in := show(es)
			h.run(in, func() {
				f := fileOf(es)
				want := map[string]*poEntry{}
				for k, e := range entriesOf(f) {
					c := *e
					c.MsgCmts = nil
					want[k] = &c
				}
				var buf bytes.Buffer
				if err := f.SaveAsMo(&buf); err != nil {
					h.fail(in, "SaveAsMo", err.Error(), "no error")
					return
				}
				b := buf.Bytes()
				ref, ok, unsure := refMo(b)
				if !ok || unsure || showAll(ref) != showAll(want) {
					h.fail(in, fmt.Sprintf("layout %x", b), showAll(ref), showAll(want))
					return
				}
				u := func(at int) int { return int(binary.LittleEndian.Uint32(b[at:])) }
				h.eq(in, "magic", u(0), 0x950412de)
				h.eq(in, "revision", u(4), 0)
				h.eq(in, "count", u(8), len(want))
				type span struct{ a, b int }
				spans := []span{{0, 28}, {u(12), u(12) + 8*len(want)}, {u(16), u(16) + 8*len(want)}}
				var ids []string
				for i := 0; i < len(want); i++ {
					for k, t := range []int{u(12), u(16)} {
						l, p := u(t+8*i), u(t+8*i+4)
						if p+l >= len(b) || b[p+l] != 0 {
							h.fail(in, fmt.Sprintf("text %d of table %d is not NUL-terminated", i, k), fmt.Sprintf("%x", b), "")
							return
						}
						spans = append(spans, span{p, p + l + 1})
						if k == 0 {
							ids = append(ids, string(b[p:p+l]))
						}
					}
				}
				sort.Slice(spans, func(i, j int) bool {
					return spans[i].a < spans[j].a || spans[i].a == spans[j].a && spans[i].b < spans[j].b
				})
				for i := 1; i < len(spans); i++ {
					if spans[i].a < spans[i-1].b {
						h.fail(in, "overlapping ranges", fmt.Sprint(spans), "")
					}
				}
				var wantIDs []string
				for _, e := range want {
					s := e.MsgID
					if e.MsgCtxt != "" {
						s = e.MsgCtxt + "\x04" + s
					}
					if e.IsPlural {
						s += "\x00" + e.MsgID2
					}
					wantIDs = append(wantIDs, s)
				}
				sort.Strings(ids)
				sort.Strings(wantIDs)
				h.eq(in, "originals", ids, wantIDs)
				g, err := translator.ReadMo(b)
				if err != nil {
					h.fail(in, "ReadMo", err.Error(), "no error")
					return
				}
				h.eq(in, "entries read back", showAll(entriesOf(g)), showAll(want))
			})
		}
	})
	reg("C18", "MO files of both byte orders with tables and texts anywhere, shared texts, damaged fields, truncation, against a decoder of our own; allocation measured; nontrivial: distinct files", func(h *H) {
		for h.more() {
			b := h.moBytes()
			if h.chance(0.05) {
				b = []byte(h.text())
			}
			in := fmt.Sprintf("%x", b)
			h.run(in, func() {
				var m0, m1 runtime.MemStats
				measure := h.n%16 == 0 || len(b) >= 28
				if measure {
					runtime.ReadMemStats(&m0)
				}
				f, err := translator.ReadMo(b)
				if measure {
					runtime.ReadMemStats(&m1)
					if d := m1.TotalAlloc - m0.TotalAlloc; d > 1<<20+200*uint64(len(b)) {
						h.fail(in, "bytes allocated", fmt.Sprint(d), "in proportion to the input")
					}
				}
				want, ok, unsure := refMo(b)
				if unsure && err != nil {
					return
				}
				if !h.eq(in, "accepted", err == nil, ok) || !ok {
					return
				}
				h.eq(in, "entries", showAll(entriesOf(f)), showAll(want))
			})
		}
	})
	reg("C19", "sets of entries (many with the same source lines or empty ids) added in shuffled orders and saved in the three formats; nontrivial: distinct sets", func(h *H) {
		for h.more() {
			es := h.entries(false)
			for i := h.Intn(6); i > 0; i-- {
				es = append(es, &poEntry{MsgID: pick(h, []string{"", "a", "b", "c", "d"}), MsgCtxt: pick(h, []string{"", "x", "y", "z"}), MsgStr: "t" + h.text(), MsgCmts: h.cmts()})
			}
			// unique keys
			m := map[string]*poEntry{}
			for _, e := range es {
				m[e.MsgCtxt+"\x04"+e.MsgID] = e
			}
			es = es[:0]
			for _, k := range sortedKeys(m) {
				es = append(es, m[k])
			}
			in := show(es)
			h.run(in, func() {
				var first [3]string
				var keys []string
				for k := 0; k < 6; k++ {
					h.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
					f := new(translator.File)
					for _, e := range es {
						if h.chance(0.3) { // replaced below
							f.AddEntry(&poEntry{MsgCtxt: e.MsgCtxt, MsgID: e.MsgID, MsgStr: "old"})
						}
					}
					for _, e := range es {
						f.AddEntry(e)
					}
					var got [3]bytes.Buffer
					for i, err := range []error{f.SaveAsPo(&got[0]), f.SaveAsPot(&got[1]), f.SaveAsMo(&got[2])} {
						if err != nil {
							h.fail(in, fmt.Sprint("save ", i), err.Error(), "no error")
						}
					}
					var ks []string
					seen := map[*poEntry]bool{}
					rest := false
					for _, e := range f.SortedEntry() {
						ks = append(ks, e.Key())
						if seen[e] || m[e.MsgCtxt+"\x04"+e.MsgID] != e {
							h.fail(in, "SortedEntry", "an entry twice or unknown", "each once")
						}
						seen[e] = true
						if e.MsgID != "" {
							rest = true
						} else if rest {
							h.fail(in, "SortedEntry", fmt.Sprint(ks), "empty ids first")
						}
					}
					h.eq(in, "entries", len(ks), len(es))
					for i := range got {
						if k == 0 {
							first[i] = got[i].String()
							keys = ks
						} else if got[i].String() != first[i] {
							h.fail(in, fmt.Sprint("format ", i, " differs between saves"), got[i].String(), first[i])
						}
					}
					h.eq(in, "order", ks, keys)
				}
			})
		}
	})
}
