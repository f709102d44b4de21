package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

func setup(prop, specs string) (*V, error) {
	v, err := loadRepo(specs)
	if err != nil {
		return nil, err
	}
	v.prop = prop
	v.w = newWorld()
	v.w.bv = prop == "C03"
	v.sol = newSolvers(8)
	v.spec, err = loadSpecs(specs)
	if err != nil {
		return nil, err
	}
	v.spec.forProp(prop)
	if err := v.analyzeRecs(); err != nil {
		return nil, err
	}
	if err := v.loadAxioms(); err != nil {
		return nil, err
	}
	return v, nil
}

func main() {
	debug.SetMaxStack(8 << 30)
	t0 := time.Now()
	if len(os.Args) < 3 {
		fmt.Println("usage: govc dev PROP [FN...] | check PROP")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "abs":
		b, _ := os.ReadFile(os.Args[2])
		t, _ := abstractStrings(string(b))
		fmt.Print(t)
	case "check":
		root := os.Getenv("VERIF_ROOT")
		if root == "" {
			root = "/verif"
		}
		os.Exit(check(root, os.Args[2]))
	case "dev":
		v, err := setup(os.Args[2], "/verif/specs")
		if err != nil {
			fmt.Println("ERROR", err)
			os.Exit(1)
		}
		defer v.sol.Close()
		v.debug = os.Getenv("GOVC_DEBUG") != ""
		log := func(f string, a ...any) { fmt.Printf("[%5.1f] ", time.Since(t0).Seconds()); fmt.Printf(f+"\n", a...) }
		lr, err := v.proveLemmas(20*time.Second, log)
		if err != nil {
			fmt.Println("ERROR", err)
			os.Exit(1)
		}
		_ = lr
		if len(os.Args) > 3 {
			for _, f := range os.Args[3:] {
				for k, c := range v.spec.Contracts {
					if strings.HasSuffix(k, f) && !c.Trusted {
						r := v.verifyFn(k, c, 120*time.Second)
						v.prove(r.Obls, 20*time.Second, r.hide)
						log("%s: %d obligations, %d trivial, loops %d invs %d returns %d, %d ms, ok=%v %s", r.Name, len(r.Obls), r.Trivial, r.Loops, r.Invs, r.Returns, r.Ms, r.ok(), r.Err)
						for _, o := range r.Obls {
							if o.Ms > 1000 {
								log("   slow: %d ms by %s: %s", o.Ms, o.By, o.Text)
							}
						}
						for i, o := range r.failed() {
							log("   %s %s at %s: %s (%s, %d ms)", o.Ans, o.Kind, o.Pos, o.Text, o.By, o.Ms)
							os.WriteFile(fmt.Sprintf("/tmp/fail%d.smt2", i), []byte("(set-logic ALL)\n"+o.Query+"(check-sat)\n(get-model)\n"), 0644)
						}
						for n := range r.notes {
							log("   note: %s", n)
						}
						for n := range r.trusted {
							log("   trusted: %s", n)
						}
					}
				}
			}
			return
		}
		v.run(120*time.Second, 20*time.Second, log)
		log("solver queries %d cached %d bad %d %v", v.sol.stat.queries, v.sol.stat.cached, v.sol.bad.Load(), v.sol.lastErr.Load())
	}
}
