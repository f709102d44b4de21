package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// check decides one property: every obligation generated from /repo's current
// source must be discharged; failing ones are reported, with a concrete input
// when the replay harness finds one.

type harnessResult struct {
	Evaluations int64             `json:"evaluations"`
	Distinct    int               `json:"distinct_nontrivial"`
	Rule        string            `json:"rule"`
	Samples     []json.RawMessage `json:"samples"`
	Fails       []json.RawMessage `json:"fails"`
	Known       map[string]string `json:"known"`
	Ms          int64             `json:"ms"`
	log         string
	rc          int
	ran         bool
}

func runHarness(root, prop string, seed int64, secs float64) *harnessResult {
	h := &harnessResult{}
	f, err := os.CreateTemp("", "verif-h-*.json")
	if err != nil {
		h.log, h.rc = err.Error(), 3
		return h
	}
	f.Close()
	defer os.Remove(f.Name())
	cmd := exec.Command("bash", filepath.Join(root, "harness", "run.sh"), prop, strconv.FormatInt(seed, 10), fmt.Sprint(secs), f.Name())
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	h.log = out.String()
	if err != nil {
		h.rc = 3
		if e, ok := err.(*exec.ExitError); ok {
			h.rc = e.ExitCode()
		}
	}
	b, _ := os.ReadFile(f.Name())
	if json.Unmarshal(b, h) == nil {
		h.ran = true
	}
	return h
}

type knownFinding struct{ prop, id, text string }

func readKnown(root string) (out []knownFinding) {
	b, _ := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := knownFinding{}
		fs := strings.Fields(strings.TrimPrefix(l, "finding:"))
		for i, f := range fs {
			if strings.HasPrefix(f, "property=") {
				k.prop = f[9:]
			} else if strings.HasPrefix(f, "id=") {
				k.id = f[3:]
			} else {
				k.text = strings.Join(fs[i:], " ")
				break
			}
		}
		out = append(out, k)
	}
	return
}

func check(root, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	secs, total, oblLimit := 20.0, 480*time.Second, 40*time.Second
	if tier == "thorough" {
		secs, total, oblLimit = 300, 780*time.Second, 120*time.Second
	}
	hch := make(chan *harnessResult, 1)
	go func() { hch <- runHarness(root, prop, seed, secs) }()

	var broken []string // what is not established, in words
	var detail bytes.Buffer
	var results []*FnResult
	var lemmaN, lemmaOK int
	var v *V
	v, err = setup(prop, filepath.Join(root, "specs"))
	log := func(f string, a ...any) {
		s := fmt.Sprintf("[%6.1f] ", time.Since(t0).Seconds()) + fmt.Sprintf(f, a...)
		fmt.Println(s)
		detail.WriteString(s + "\n")
	}
	if err != nil {
		broken = append(broken, "the verifier could not read the code or its contracts: "+err.Error())
		log("ERROR %v", err)
	} else {
		defer v.sol.Close()
		v.deadline = t0.Add(total)
		lrs, err := v.proveLemmas(oblLimit, log)
		if err != nil {
			broken = append(broken, "lemmas: "+err.Error())
		}
		for _, l := range lrs {
			lemmaN++
			if l.ok() {
				lemmaOK++
			} else {
				broken = append(broken, "lemma "+l.Name+": "+l.why())
			}
		}
		results = v.run(300*time.Second, oblLimit, log)
		// an undecided obligation gets a second, longer attempt
		for _, r := range results {
			if r.Err == "" && len(r.failed()) > 0 && !v.inlined[r.Key] && time.Now().Before(v.deadline.Add(-60*time.Second)) {
				v.prove(r.failed(), 3*oblLimit, r.hide)
			}
		}
		n := 0
		for _, r := range results {
			if v.inlined[r.Key] {
				continue
			}
			n++
			if r.Err != "" {
				broken = append(broken, r.Name+": "+r.Err)
			}
			for _, o := range r.failed() {
				broken = append(broken, fmt.Sprintf("%s: %s not proved (%s): %s [%s]", r.Name, o.Kind, o.Ans, o.Text, o.Pos))
			}
		}
		if n == 0 {
			broken = append(broken, "no function under contract was found for this property")
		}
	}
	h := <-hch

	known := readKnown(root)
	listed := func(id string) *knownFinding {
		for i := range known {
			if known[i].prop == prop && known[i].id == id {
				return &known[i]
			}
		}
		return nil
	}
	var fails []json.RawMessage
	fails = append(fails, h.Fails...)
	for id, what := range h.Known {
		if k := listed(id); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		} else {
			b, _ := json.Marshal(map[string]string{"what": what})
			fails = append(fails, b)
		}
	}
	if h.rc == 66 || strings.Contains(h.log, "WARNING: DATA RACE") {
		b, _ := json.Marshal(map[string]string{"what": "data race between concurrent lookups", "report": tail(h.log, 6000), "replay": fmt.Sprintf("bash harness/run.sh %s %d %v out.json", prop, seed, secs)})
		fails = append(fails, b)
	} else if h.rc != 0 && len(fails) == 0 {
		if strings.Contains(h.log, "\ngoroutine ") || strings.Contains(h.log, "fatal error:") || strings.Contains(h.log, "panic:") {
			b, _ := json.Marshal(map[string]string{"what": "the program crashed", "report": tail(h.log, 6000), "replay": fmt.Sprintf("bash harness/run.sh %s %d %v out.json", prop, seed, secs)})
			fails = append(fails, b)
		} else {
			broken = append(broken, fmt.Sprintf("the bounded replay harness did not run (exit %d): %s", h.rc, tail(h.log, 1500)))
		}
	}
	violated := len(fails) > 0 || len(broken) > 0
	if violated {
		dir := filepath.Join(root, "evidence")
		os.MkdirAll(dir, 0755)
		replay := filepath.Join(dir, "replay-"+prop+".json")
		rep := map[string]any{"property": prop, "failed_obligations": broken, "failing_inputs": fails, "seed": seed,
			"replay": fmt.Sprintf("bash %s/harness/run.sh %s %d %v out.json (rebuilds from /repo and reruns the same inputs)", root, prop, seed, secs), "verifier_output": tail(detail.String(), 40000)}
		if v != nil {
			var q []map[string]string
			for _, r := range results {
				for _, o := range r.failed() {
					if len(q) < 4 && !v.inlined[r.Key] {
						q = append(q, map[string]string{"function": r.Name, "obligation": o.Text, "answer": o.Ans.String(), "solver_output": tail(o.Model, 4000), "query": tail(o.Query, 60000)})
					}
				}
			}
			rep["queries"] = q
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(replay, b, 0644)
		for _, x := range broken {
			fmt.Println("NOT ESTABLISHED:", x)
		}
		for _, x := range fails {
			fmt.Println("FAILING INPUT:", tail(string(x), 1500))
		}
		if len(fails) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
	}
	evidence(root, prop, tier, seed, t0, v, results, lemmaN, lemmaOK, h, len(fails)+len(broken))
	if violated {
		return 1
	}
	fmt.Printf("property %s holds: %d functions under contract, all obligations discharged, %.1f s\n", prop, len(results), time.Since(t0).Seconds())
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func evidence(root, prop, tier string, seed int64, t0 time.Time, v *V, results []*FnResult, lemmaN, lemmaOK int, h *harnessResult, violations int) {
	obl, done, triv := lemmaN, lemmaOK, 0
	var fns, given []map[string]any
	trusted := map[string]bool{}
	notes := map[string]bool{}
	inl := map[string]bool{}
	for _, r := range results {
		if v.inlined[r.Key] {
			given = append(given, map[string]any{"function": r.Name, "why": r.why()})
			continue
		}
		obl += len(r.Obls)
		done += len(r.Obls) - len(r.failed())
		triv += r.Trivial
		fns = append(fns, map[string]any{"function": r.Name, "obligations": len(r.Obls), "trivial": r.Trivial, "loops": r.Loops, "loop_invariants": r.Invs, "returns": r.Returns, "ms": r.Ms, "ok": r.ok()})
		for k := range r.trusted {
			trusted[k] = true
		}
		for k := range r.notes {
			notes[k] = true
		}
		for k := range r.used {
			if strings.HasPrefix(k, "inline ") {
				inl[strings.TrimPrefix(k, "inline ")] = true
			}
		}
	}
	back := map[string]int64{}
	var solverMs, queries int64
	if v != nil {
		v.sol.byBackend.Range(func(k, n any) bool { back[k.(string)] = atomic.LoadInt64(n.(*int64)); return true })
		solverMs, queries = atomic.LoadInt64(&v.sol.stat.ns)/1e6, atomic.LoadInt64(&v.sol.stat.queries)
	}
	base := []string{"govc (this verifier: Go SSA to SMT weakest-precondition style symbolic execution)", "golang.org/x/tools/go/ssa v0.52.0 and the Go compiler agreeing on the meaning of the source", "z3 5.3.2 (z3-new), z3 4.8.12, cvc5 1.1.2: an unsat answer of any one is accepted"}
	for _, k := range sortedBools(trusted) {
		base = append(base, k)
	}
	assumptions := []string{"termination is not proved", "memory model: no data races in the verified function itself, no unsafe", "specifications of the standard library and third-party functions are assumed as written in specs/*.spec and govc/externs.go"}
	if prop != "C03" {
		assumptions = append(assumptions, "machine integers are treated as mathematical integers")
	}
	assumptions = append(assumptions, sortedBools(notes)...)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": violations, "assumptions": assumptions,
		"coverage": map[string]any{"obligations": obl, "discharged": done, "syntactically_discharged": triv, "checker_cmd": "bash check.sh " + prop, "trusted_base": base,
			"functions_under_contract": fns, "functions_inlined": sortedBools(inl), "internal_contracts_given_up": given, "lemmas": lemmaN, "back_ends": back, "solver_ms": solverMs, "solver_queries": queries,
			"bounded_harness": map[string]any{"note": "bounded, not counted as proved: stands in for the assumed contracts and supplies failing inputs", "evaluations": h.Evaluations, "distinct_nontrivial": h.Distinct, "rule": h.Rule, "samples": h.Samples, "ms": h.Ms}}}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0644)
}

func sortedBools(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
