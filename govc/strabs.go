package main

import (
	"fmt"
	"sort"
	"strings"
)

// A query whose strings are an uninterpreted sort and whose string operations
// are uninterpreted functions with a few of their laws. Every model of the
// original query is a model of this one, so unsatisfiability carries over; the
// other answers do not. Congruence then replaces the string solver where the
// argument needs no more than that.

var absRes = map[string]string{
	"str.++": "US", "str.<": "Bool", "str.at": "US", "str.contains": "Bool", "str.from_code": "US",
	"str.from_int": "US", "str.indexof": "Int", "str.len": "Int", "str.prefixof": "Bool",
	"str.replace_all": "US", "str.substr": "US", "str.suffixof": "Bool", "str.to_code": "Int",
	"str.replace": "US", "str.<=": "Bool", "str.to_int": "Int",
}
var absArgs = map[string]string{
	"str.<": "US US", "str.at": "US Int", "str.contains": "US US", "str.from_code": "Int",
	"str.from_int": "Int", "str.indexof": "US US Int", "str.len": "US", "str.prefixof": "US US",
	"str.replace_all": "US US US", "str.substr": "US Int Int", "str.suffixof": "US US", "str.to_code": "US",
	"str.replace": "US US US", "str.<=": "US US", "str.to_int": "US",
}

func smtStrLen(lit string) int {
	n := 0
	for i := 0; i < len(lit); {
		switch {
		case strings.HasPrefix(lit[i:], "\\u{"):
			j := strings.IndexByte(lit[i:], '}')
			if j < 0 {
				return -1
			}
			i += j + 1
		case lit[i] == '"': // doubled
			i += 2
		default:
			if lit[i] >= 0x80 {
				return -1
			}
			i++
		}
		n++
	}
	return n
}

func abstractStrings(text string) (string, bool) {
	if !strings.Contains(text, "str.") {
		return "", false
	}
	var b strings.Builder
	lits := map[string]string{}
	used := map[string]bool{}
	cats := map[int]bool{}
	// stack of pending n-ary concatenations: position in the output of the operator
	type open struct {
		cat  bool
		at   int
		args int
		dep  int
	}
	var out []string
	var stack []open
	arg := func() {
		if n := len(stack); n > 0 {
			stack[n-1].args++
		}
	}
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case c == ';':
			for i < len(text) && text[i] != '\n' {
				i++
			}
		case c == ' ' || c == '\n' || c == '\t':
			if c == '\n' {
				out = append(out, "\n")
			}
			i++
		case c == '(':
			arg()
			stack = append(stack, open{at: len(out)})
			out = append(out, "(")
			i++
		case c == ')':
			o := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if o.cat {
				n := o.args - 1
				cats[n] = true
				out[o.at+1] = fmt.Sprintf("us.cat%d", n)
			}
			out = append(out, ")")
			i++
		case c == '"':
			j := i + 1
			for {
				if text[j] == '"' {
					if j+1 < len(text) && text[j+1] == '"' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			l := text[i+1 : j]
			if _, ok := lits[l]; !ok {
				lits[l] = fmt.Sprintf("us.lit%d", len(lits))
			}
			arg()
			out = append(out, lits[l])
			i = j + 1
		case c == '|':
			j := i + 1 + strings.IndexByte(text[i+1:], '|')
			arg()
			out = append(out, text[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(text) && !strings.ContainsRune(" \n\t()\";", rune(text[j])) {
				j++
			}
			w := text[i:j]
			i = j
			first := len(stack) > 0 && stack[len(stack)-1].args == 0
			arg()
			switch {
			case w == "String":
				w = "US"
			case w == "str.++":
				if !first {
					return "", false
				}
				stack[len(stack)-1].cat = true
				if stack[len(stack)-1].at != len(out)-1 {
					return "", false
				}
			case strings.HasPrefix(w, "str.") || strings.HasPrefix(w, "re.") || strings.HasPrefix(w, "seq."):
				if absRes[w] == "" || !first {
					return "", false
				}
				used[w] = true
				w = "us." + w[4:]
			}
			out = append(out, w)
		}
	}
	body := out
	b.WriteString("(declare-sort US 0)\n")
	for _, u := range []string{"str.len", "str.substr", "str.indexof", "str.contains"} {
		used[u] = true
	}
	var us []string
	for u := range used {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprintf(&b, "(declare-fun us.%s (%s) %s)\n", u[4:], absArgs[u], absRes[u])
	}
	var ns []int
	for n := range cats {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		fmt.Fprintf(&b, "(declare-fun us.cat%d (%s) US)\n", n, strings.TrimSpace(strings.Repeat("US ", n)))
		var q, as, ls []string
		for k := 0; k < n; k++ {
			q = append(q, fmt.Sprintf("(?c%d US)", k))
			as = append(as, fmt.Sprintf("?c%d", k))
			ls = append(ls, fmt.Sprintf("(us.len ?c%d)", k))
		}
		app := fmt.Sprintf("(us.cat%d %s)", n, strings.Join(as, " "))
		fmt.Fprintf(&b, "(assert (forall (%s) (! (= (us.len %s) (+ %s)) :pattern (%s))))\n", strings.Join(q, " "), app, strings.Join(ls, " "), app)
	}
	var names []string
	for l, n := range lits {
		names = append(names, n+"\x00"+l)
	}
	sort.Strings(names)
	var ids []string
	for _, nl := range names {
		k := strings.IndexByte(nl, 0)
		n, l := nl[:k], nl[k+1:]
		ids = append(ids, n)
		fmt.Fprintf(&b, "(declare-fun %s () US)\n", n)
		if ln := smtStrLen(l); ln >= 0 {
			fmt.Fprintf(&b, "(assert (= (us.len %s) %d))\n", n, ln)
		}
		if l == "" {
			fmt.Fprintf(&b, "(assert (forall ((?s US)) (! (=> (= (us.len ?s) 0) (= ?s %s)) :pattern ((us.len ?s)))))\n", n)
		}
	}
	if len(ids) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(ids, " "))
	}
	b.WriteString(`(assert (forall ((?s US)) (! (>= (us.len ?s) 0) :pattern ((us.len ?s)))))
(assert (forall ((?s US) (?o Int) (?n Int)) (! (=> (and (<= 0 ?o) (<= 0 ?n) (<= (+ ?o ?n) (us.len ?s))) (= (us.len (us.substr ?s ?o ?n)) ?n)) :pattern ((us.substr ?s ?o ?n)))))
(assert (forall ((?s US) (?o Int) (?n Int)) (! (=> (and (= ?o 0) (= ?n (us.len ?s))) (= (us.substr ?s ?o ?n) ?s)) :pattern ((us.substr ?s ?o ?n)))))
(assert (forall ((?s US) (?t US) (?o Int)) (! (and (<= (- 1) (us.indexof ?s ?t ?o)) (=> (<= 0 (us.indexof ?s ?t ?o)) (<= (+ (us.indexof ?s ?t ?o) (us.len ?t)) (us.len ?s)))) :pattern ((us.indexof ?s ?t ?o)))))
(assert (forall ((?s US) (?t US)) (! (= (us.contains ?s ?t) (<= 0 (us.indexof ?s ?t 0))) :pattern ((us.contains ?s ?t)))))
`)
	if used["str.at"] {
		b.WriteString("(assert (forall ((?s US) (?i Int)) (! (= (us.at ?s ?i) (us.substr ?s ?i 1)) :pattern ((us.at ?s ?i)))))\n")
	}
	for k, w := range body {
		if k > 0 && w != ")" && w != "\n" && body[k-1] != "(" {
			b.WriteByte(' ')
		}
		b.WriteString(w)
	}
	b.WriteByte('\n')
	return b.String(), true
}
