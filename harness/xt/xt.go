package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"github.com/youthlin/t/cmd/xtemplate/internal"
	"github.com/youthlin/t/translator"
)

// ---------------------------------------------------------------- C20

type kw struct {
	Name          string
	Ctxt, ID, ID2 int
}

var numRE = regexp.MustCompile(`^[+-]?[0-9]+$`)

func num(s string) (int, bool) {
	if !numRE.MatchString(s) {
		return 0, false
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return int(n), err == nil
}

// keywords is the declaration syntax, read off the property.
func keywords(s string) ([]kw, bool) {
	var out []kw
	for _, d := range strings.Split(s, ";") {
		d = strings.TrimSpace(d)
		parts := strings.Split(d, ":")
		k := kw{Name: strings.TrimSpace(parts[0]), ID: 1}
		if k.Name == "" || len(parts) > 2 {
			return nil, false
		}
		if len(parts) == 2 {
			ps := strings.Split(parts[1], ",")
			for i := range ps {
				ps[i] = strings.TrimSpace(ps[i])
			}
			if len(ps) > 3 {
				return nil, false
			}
			if len(ps) > 1 && strings.HasSuffix(ps[0], "c") {
				n, ok := num(strings.TrimSuffix(ps[0], "c"))
				if !ok {
					return nil, false
				}
				k.Ctxt = n
				ps = ps[1:]
			} else if len(ps) == 3 {
				return nil, false
			}
			n, ok := num(ps[0])
			if !ok {
				return nil, false
			}
			k.ID = n
			if len(ps) == 2 {
				if k.ID2, ok = num(ps[1]); !ok {
					return nil, false
				}
			}
		}
		out = append(out, k)
	}
	return out, true
}

func (h *H) num() string {
	return pick(h, []string{"1", "2", "3", "1c", "2c", "10", "0", "12c", "", "x", "-1", "1c2", "9999999999999999999", "c", " 1", "1 ", "１", "0x1", "1_0", "+2", "07"})
}
func (h *H) decl() string {
	if h.chance(0.6) {
		n := pick(h, []string{"T", "gettext", "N", "X", "XN", "π"})
		sp := func() string { return pick(h, []string{"", "", "", " ", "\t"}) }
		switch h.Intn(5) {
		case 0:
			return sp() + n + sp()
		case 1:
			return n + ":" + sp() + fmt.Sprint(1+h.Intn(12)) + sp()
		case 2:
			return n + sp() + ":" + fmt.Sprint(1+h.Intn(12)) + sp() + "," + sp() + fmt.Sprint(1+h.Intn(12))
		case 3:
			return n + ":" + fmt.Sprint(1+h.Intn(12)) + "c," + sp() + fmt.Sprint(1+h.Intn(12))
		default:
			return n + ":" + sp() + fmt.Sprint(1+h.Intn(12)) + "c" + sp() + "," + fmt.Sprint(1+h.Intn(12)) + "," + fmt.Sprint(1+h.Intn(12)) + sp()
		}
	}
	s := pick(h, []string{"T", "", " ", "a b", "T "})
	if h.chance(0.8) {
		s += ":"
		for i := h.Intn(5); i >= 0; i-- {
			s += h.num()
			if i > 0 {
				s += ","
			}
		}
	}
	if h.chance(0.05) {
		s += ":"
	}
	return s
}

func init() {
	reg("C20", "keyword lists from a grammar of well formed and malformed declarations, compared with an independent parser", func(h *H) {
		fixed := []string{"", ";", "T;", ";T", "T", "T:1", "T:", ":1", "T:1:2", "N:1,2", "N:1,2c", "X:1c", "X:1c,2", "XN:1c,2,3", "XN:1,2,3", "XN:1c,2,3,4", "T: 1 ;N: 1 , 2", "X:c,1", "X:1c,x", "XN:1c,2,x", "XN:1c,x,3", "XN:xc,2,3", "N:x,2", "N:1,", "N:,1", "gettext;T:1;N:1,2;X:1c,2;XN:1c,2,3"}
		for i := 0; h.more(); i++ {
			var s string
			if i < len(fixed) {
				s = fixed[i]
			} else {
				n := 1 + h.Intn(4)
				var ds []string
				for ; n > 0; n-- {
					ds = append(ds, h.decl())
				}
				s = strings.Join(ds, ";")
			}
			h.run(s, func() {
				want, ok := keywords(s)
				got, err := internal.ParseKeywords(s)
				if (err == nil) != ok {
					h.fail(s, "accepted", fmt.Sprint(err == nil, " ", err), fmt.Sprint(ok))
					return
				}
				var g []kw
				for _, k := range got {
					g = append(g, kw{k.Name, k.MsgCtxt, k.MsgID, k.MsgID2})
				}
				h.eq(s, "declarations", g, want)
			})
		}
	})
	reg("C21", "generated templates and keyword lists; the written POT is compared with the messages an independent walk of the parse tree designates", func(h *H) { extraction(h, 0) })
	reg("C22", "generated templates with deep nesting; the written POT is compared with the messages an independent walk of the parse tree designates", func(h *H) { extraction(h, 1) })
	reg("C23", "generated templates with many repeated messages; the written POT is compared with an independent merge", func(h *H) { extraction(h, 2) })
}

// ---------------------------------------------------------------- C21-C23

type xin struct {
	Files    map[string]string
	Keywords string
	Left     string
	Right    string
}

type msg struct {
	Ctxt, ID, ID2 string
	Plural        bool
	Ref           string
}

// literal: a string, directly or parenthesised
func literal(n parse.Node) (string, bool) {
	switch n := n.(type) {
	case *parse.StringNode:
		return n.Text, true
	case *parse.PipeNode:
		if n != nil && len(n.Cmds) == 1 && len(n.Cmds[0].Args) == 1 {
			return literal(n.Cmds[0].Args[0])
		}
	}
	return "", false
}

func nameOf(n parse.Node) (string, bool) {
	var ids []string
	switch n := n.(type) {
	case *parse.IdentifierNode:
		return n.Ident, true
	case *parse.FieldNode:
		ids = n.Ident
	case *parse.VariableNode:
		ids = n.Ident
	case *parse.ChainNode:
		ids = n.Field
	}
	if len(ids) == 0 {
		return "", false
	}
	return ids[len(ids)-1], true
}

type walker struct {
	file string
	kws  []kw
	out  []msg
}

// walk finds pipelines by reflection over the whole tree.
func (w *walker) walk(v reflect.Value, line int) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch n := v.Interface().(type) {
		case *parse.PipeNode:
			w.pipe(n, line)
			return
		case *parse.Tree:
			return
		}
		w.walk(v.Elem(), line)
	case reflect.Struct:
		if f := v.FieldByName("Line"); f.IsValid() && f.Kind() == reflect.Int {
			line = int(f.Int())
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				w.walk(v.Field(i), line)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), line)
		}
	}
}

func (w *walker) pipe(p *parse.PipeNode, line int) {
	for ci, c := range p.Cmds {
		ops := append([]parse.Node{}, c.Args...)
		if ci > 0 && len(p.Cmds[ci-1].Args) == 1 {
			if _, ok := literal(p.Cmds[ci-1].Args[0]); ok {
				ops = append(ops, p.Cmds[ci-1].Args[0])
			}
		}
		for i, o := range ops {
			switch n := o.(type) {
			case *parse.PipeNode:
				w.pipe(n, line)
			case *parse.ChainNode:
				if q, ok := n.Node.(*parse.PipeNode); ok {
					w.pipe(q, line)
				}
			}
			name, ok := nameOf(o)
			if !ok {
				continue
			}
			for _, k := range w.kws {
				if k.Name != name {
					continue
				}
				at := func(pos int) (string, bool) {
					if pos <= 0 {
						return "", true
					}
					if pos >= len(ops)-i {
						return "", false
					}
					return literal(ops[i+pos])
				}
				m := msg{Ref: fmt.Sprintf("%s:%d", w.file, line), Plural: k.ID2 > 0}
				var a, b, d bool
				m.Ctxt, a = at(k.Ctxt)
				m.ID, b = at(k.ID)
				m.ID2, d = at(k.ID2)
				if a && b && d && k.ID > 0 {
					w.out = append(w.out, m)
				}
			}
		}
	}
}

var idents = regexp.MustCompile(`[a-zA-Z_]\w*`)

type merged struct {
	Ctxt, ID, ID2 string
	Plural        bool
	Refs          []string
}

// expect gives the collected messages, nil if a file cannot be parsed.
func (in xin) expect(dir string) (map[string]*merged, bool, bool) {
	kws, ok := keywords(in.Keywords)
	if !ok {
		return nil, false, false
	}
	out := map[string]*merged{}
	ordered := true
	var names []string
	for n := range in.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		src := in.Files[n]
		trees := map[string]*parse.Tree{}
		t := parse.New("")
		t.Mode = parse.SkipFuncCheck
		if _, err := t.Parse(src, in.Left, in.Right, trees); err != nil {
			return nil, false, false
		}
		if len(trees) > 1 {
			ordered = false
		}
		var tn []string
		for k := range trees {
			tn = append(tn, k)
		}
		sort.Strings(tn)
		for _, k := range tn {
			w := &walker{file: filepath.Join(dir, n), kws: kws}
			if trees[k].Root != nil {
				w.walk(reflect.ValueOf(trees[k].Root), 0)
			}
			for _, m := range w.out {
				if m.Ctxt == "" && m.ID == "" {
					continue // reserved for the header
				}
				key := m.Ctxt + "\x04" + m.ID
				e := out[key]
				if e == nil {
					out[key] = &merged{m.Ctxt, m.ID, m.ID2, m.Plural, []string{m.Ref}}
					continue
				}
				if e.Plural != m.Plural {
					if !ordered {
						return nil, false, false // depends on the template order
					}
					continue
				}
				if e.ID2 != m.ID2 && !ordered {
					return nil, false, false
				}
				e.Refs = append(e.Refs, m.Ref)
			}
		}
	}
	return out, ordered, true
}

func (h *H) lit() string {
	ids := []string{"a", "b", "hello", "a b", "%d items", "line\nbreak", "ünï", "x\"y", "", "back\\slash", "tab\t"}
	s := pick(h, ids)
	if h.chance(0.25) && !strings.ContainsAny(s, "`\r") {
		return "`" + s + "`"
	}
	return strconv.Quote(s)
}

type tgen struct {
	*H
	kws  []kw
	mode int
	L, R string
}

func (g *tgen) operand(d int) string {
	switch k := g.Intn(12); {
	case k < 5:
		return g.lit()
	case k == 5:
		return "(" + g.lit() + ")"
	case k == 6:
		return "((" + g.lit() + "))"
	case k == 7:
		return pick(g.H, []string{"1", "3.5", ".", "$", ".A", ".A.B", "$x", "$x.Y", "true", "nil2", "'c'"})
	case k == 8 && d > 0:
		return "(" + g.pipe(d-1) + ")"
	case k == 9 && d > 0:
		return "(" + g.pipe(d-1) + ").F"
	case k == 10 && d > 0:
		return "(" + g.call(d-1) + ")"
	}
	return g.lit()
}
func (g *tgen) fname() string {
	n := "foo"
	if len(g.kws) > 0 && g.chance(0.8) {
		n = pick(g.H, g.kws).Name
	}
	return n
}
func (g *tgen) call(d int) string {
	n := g.fname()
	switch g.Intn(9) {
	case 0:
		n = "." + n
	case 1:
		n = ".A." + n
	case 2:
		n = "$." + n
	case 3:
		n = "$x." + n
	case 4:
		if d > 0 {
			n = "(" + g.pipe(d-1) + ")." + n
		}
	}
	args := g.Intn(5)
	s := n
	for ; args > 0; args-- {
		s += " " + g.operand(d)
	}
	return s
}
func (g *tgen) cmd(d int) string {
	if g.chance(0.75) {
		return g.call(d)
	}
	return g.operand(d)
}
func (g *tgen) pipe(d int) string {
	s := g.cmd(d)
	for g.chance(0.3) {
		s += " | " + g.call(d)
	}
	return s
}
func (g *tgen) action(s string) string {
	return g.L + pick(g.H, []string{"", " ", "- "}) + s + pick(g.H, []string{"", " ", " -"}) + g.R
}
func (g *tgen) block(d int, top bool) string {
	var sb strings.Builder
	for n := 1 + g.Intn(3); n > 0; n-- {
		sb.WriteString(pick(g.H, []string{"", "text", "\n", "\n\n", "x\n"}))
		k := g.Intn(10)
		if d <= 0 {
			k = 0
		}
		els := func() {
			switch g.Intn(3) {
			case 0:
				sb.WriteString(g.action("else"))
				sb.WriteString(g.block(d-1, false))
			case 1:
				sb.WriteString(g.action("else if " + g.pipe(1)))
				sb.WriteString(g.block(d-1, false))
			}
		}
		switch k {
		case 1:
			sb.WriteString(g.action("if " + g.pipe(2)))
			sb.WriteString(g.block(d-1, false))
			els()
			sb.WriteString(g.action("end"))
		case 2:
			sb.WriteString(g.action(pick(g.H, []string{"range ", "range $i, $x := ", "range $x := "}) + g.pipe(2)))
			sb.WriteString(g.block(d-1, false))
			if g.chance(0.3) {
				sb.WriteString(g.action("else"))
				sb.WriteString(g.block(d-1, false))
			}
			sb.WriteString(g.action("end"))
		case 3:
			sb.WriteString(g.action("with " + g.pipe(2)))
			sb.WriteString(g.block(d-1, false))
			if g.chance(0.4) {
				sb.WriteString(g.action("else"))
				sb.WriteString(g.block(d-1, false))
			}
			sb.WriteString(g.action("end"))
		case 4:
			sb.WriteString(g.action("template \"tt\" " + g.pipe(2)))
		case 5:
			sb.WriteString(g.action("$x := " + g.pipe(2)))
		case 6:
			if top && g.chance(0.3) {
				sb.WriteString(g.action(fmt.Sprintf("define \"d%d\"", g.Intn(1000))))
				sb.WriteString("{{$x := 1}}" + g.block(d-1, false))
				sb.WriteString(g.action("end"))
				continue
			}
			if top && g.chance(0.3) {
				sb.WriteString(g.action(fmt.Sprintf("block \"b%d\" %s", g.Intn(1000), g.pipe(1))))
				sb.WriteString("{{$x := 1}}" + g.block(d-1, false))
				sb.WriteString(g.action("end"))
				continue
			}
			sb.WriteString(g.action("/* T \"comment\" */"))
		default:
			sb.WriteString(g.action(g.pipe(2)))
		}
	}
	return sb.String()
}

func (h *H) xin(mode int) xin {
	in := xin{Files: map[string]string{}, Left: "{{", Right: "}}"}
	in.Keywords = pick(h, []string{"T", "T:1", "N:1,2", "X:1c,2", "XN:1c,2,3", "T;N:1,2", "gettext;T:1;N:1,2;X:1c,2;XN:1c,2,3", "T:2", "N:2,1", "X:2c,1", "T;T:1,2", "XN:3c,2,1", "T:3", "A;x;F", "T:0"})
	kws, _ := keywords(in.Keywords)
	depth := 2
	if mode == 1 {
		depth = 4
	}
	g := &tgen{h, kws, mode, in.Left, in.Right}
	for n := 1 + h.Intn(2); n > 0; n-- {
		in.Files[fmt.Sprintf("f%d.tmpl", n)] = "{{$x := 1}}" + strings.ReplaceAll(g.block(depth, true), "\x00", "")
	}
	return in
}

func extraction(h *H, mode int) {
	root := os.Getenv("VERIF_SCRATCH")
	fixed := []xin{
		{Files: map[string]string{"a.tmpl": `{{T "a"}}{{T "a"}}`}, Keywords: "T"},
		{Files: map[string]string{"a.tmpl": `{{T ""}}{{T "a"}}`}, Keywords: "T"},
		{Files: map[string]string{"a.tmpl": `{{"x" | T}}{{T ("y")}}{{("z") | T}}{{"p" | N "s"}}`}, Keywords: "T;N:1,2"},
		{Files: map[string]string{"a.tmpl": "{{T \"a\"}}\n{{N \"a\" \"as\" 1}}\n{{N \"b\" \"bs\"}}{{N \"b\" \"other\"}}{{T \"b\"}}"}, Keywords: "T;N:1,2"},
		{Files: map[string]string{"a.tmpl": `{{if T "a"}}{{range T "b"}}{{with T "c"}}{{template "q" T "d"}}{{else}}{{T "e"}}{{end}}{{else}}{{T "f"}}{{end}}{{else if T "g"}}{{T "h"}}{{else}}{{T "i"}}{{end}}{{T "j"}}`}, Keywords: "T"},
		{Files: map[string]string{"a.tmpl": `{{((T "a").X).Y}}{{(T (T "b" | T)).Z}}{{print (T "c") (T "d") | print (T "e")}}{{$.T "f"}}{{(print 1).T "g"}}`}, Keywords: "T"},
		{Files: map[string]string{"a.tmpl": `{{X "ctx" "id"}}{{X "id"}}{{X . "id"}}{{XN "c" "i" "p" 1}}{{XN "c" "i" .P}}{{T .X "y"}}`}, Keywords: "X:1c,2;XN:1c,2,3;T"},
	}
	for i := range fixed {
		fixed[i].Left, fixed[i].Right = "{{", "}}"
	}
	for i := 0; h.more(); i++ {
		var in xin
		if i < len(fixed) {
			in = fixed[i]
		} else {
			in = h.xin(mode)
		}
		h.run(in, func() {
			dir, err := os.MkdirTemp(root, "x")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			want, ordered, ok := in.expect(dir)
			if !ok {
				return
			}
			for n, s := range in.Files {
				os.WriteFile(filepath.Join(dir, n), []byte(s), 0644)
			}
			out := filepath.Join(dir, "out.pot")
			errF := os.Stderr
			os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			err = internal.Run(&internal.Param{Input: filepath.Join(dir, "*.tmpl"), Left: in.Left, Right: in.Right, Keyword: in.Keywords, OutputFile: out})
			os.Stderr.Close()
			os.Stderr = errF
			if err != nil {
				h.fail(in, "Run failed", err.Error(), "nil")
				return
			}
			b, _ := os.ReadFile(out)
			f, err := translator.ReadPot(b)
			if err != nil {
				h.fail(in, "written POT unreadable", err.Error(), "nil")
				return
			}
			hasHeader, plural := false, false
			seen := map[string]int{}
			for _, m := range want {
				plural = plural || m.Plural
			}
			for _, e := range f.SortedEntry() {
				if e.MsgCtxt == "" && e.MsgID == "" {
					hasHeader = true
					h.eq(in, "header has a plural-forms line", strings.Contains(e.MsgStr, "\nPlural-Forms: "), plural)
					h.ok(in, "header text", strings.Contains(e.MsgStr, "Project-Id-Version: "))
					continue
				}
				key := e.MsgCtxt + "\x04" + e.MsgID
				seen[key]++
				w := want[key]
				if w == nil {
					h.fail(in, "unexpected message", fmt.Sprintf("%q %q", e.MsgCtxt, e.MsgID), "none")
					return
				}
				var refs []string
				for _, c := range e.MsgCmts {
					if strings.HasPrefix(c, "#: ") {
						refs = append(refs, strings.TrimPrefix(c, "#: "))
					}
				}
				wr := append([]string{}, w.Refs...)
				if !ordered {
					sort.Strings(refs)
					sort.Strings(wr)
				}
				h.eq(in, fmt.Sprintf("references of %q", key), refs, wr)
				h.eq(in, fmt.Sprintf("plural of %q", key), e.MsgID2, w.ID2)
			}
			h.ok(in, "header present", hasHeader)
			for k := range want {
				if seen[k] != 1 {
					h.fail(in, fmt.Sprintf("message %q", k), fmt.Sprint(seen[k], " times"), "once")
				}
			}
			// every message once in the text as well
			if n := strings.Count("\n"+string(b), "\nmsgid "); n != len(want)+1 {
				h.fail(in, "messages in the file", fmt.Sprint(n), fmt.Sprint(len(want)+1))
			}
		})
	}
}
