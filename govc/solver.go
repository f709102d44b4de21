package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Answer int

const (
	Unknown Answer = iota
	Sat
	Unsat
)

func (a Answer) String() string { return [...]string{"unknown", "sat", "unsat"}[a] }

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// Solvers is a pool of persistent z3-new processes plus a one-shot portfolio.
type Solvers struct {
	mu    sync.Mutex
	idle  []*proc
	sem   chan struct{}
	cache sync.Map
	stat  struct {
		queries, cached int64
		ns              int64
	}
	byBackend sync.Map
	bad       atomic.Int64
	lastErr   atomic.Value
}

func newSolvers(n int) *Solvers {
	return &Solvers{sem: make(chan struct{}, n)}
}

func (s *Solvers) get() (*proc, error) {
	s.mu.Lock()
	if n := len(s.idle); n > 0 {
		p := s.idle[n-1]
		s.idle = s.idle[:n-1]
		s.mu.Unlock()
		return p, nil
	}
	s.mu.Unlock()
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<16)}, nil
}
func (s *Solvers) put(p *proc) {
	s.mu.Lock()
	s.idle = append(s.idle, p)
	s.mu.Unlock()
}
func (s *Solvers) Close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range s.idle {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	s.idle = nil
}

func (s *Solvers) note(backend string) {
	v, _ := s.byBackend.LoadOrStore(backend, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

// Quick asks one persistent solver with a short limit.
func (s *Solvers) Quick(text string, ms int) Answer {
	key := sha256.Sum256([]byte(text))
	if v, ok := s.cache.Load(key); ok {
		atomic.AddInt64(&s.stat.cached, 1)
		return v.(Answer)
	}
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	atomic.AddInt64(&s.stat.queries, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.stat.ns, int64(time.Since(t0))) }()
	p, err := s.get()
	if err != nil {
		return Unknown
	}
	type res struct {
		a   Answer
		ok  bool
		msg string
	}
	ch := make(chan res, 1)
	go func() {
		fmt.Fprintf(p.in, "(reset)\n(set-option :timeout %d)\n", ms)
		io.WriteString(p.in, text)
		io.WriteString(p.in, "(check-sat)\n(echo \"@done\")\n")
		a := Unknown
		ok := true
		msg := ""
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{Unknown, false, "solver died"}
				return
			}
			l = strings.TrimSpace(l)
			switch {
			case l == "@done" || l == "\"@done\"":
				ch <- res{a, ok, msg}
				return
			case l == "sat":
				a = Sat
			case l == "unsat":
				a = Unsat
			case strings.HasPrefix(l, "(error"):
				if msg == "" {
					msg = l
				}
			}
		}
	}()
	var r res
	select {
	case r = <-ch:
	case <-time.After(time.Duration(ms+3000) * time.Millisecond):
		p.cmd.Process.Kill()
		<-ch
		p.cmd.Wait()
		return Unknown
	}
	if r.msg != "" {
		s.bad.Add(1)
		s.lastErr.Store(r.msg)
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", r.msg)
			os.WriteFile("/tmp/govc_bad.smt2", []byte(text+"(check-sat)\n"), 0644)
		}
		r.a = Unknown
	}
	if !r.ok {
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return Unknown
	}
	s.put(p)
	if r.a != Unknown {
		s.cache.Store(key, r.a)
	}
	return r.a
}

// race runs several back ends on one query; each has its own time limit,
// counted from when it starts.
func (s *Solvers) race(text string, limit time.Duration, cands [][]string) (Answer, string, string) {
	full := "(set-logic ALL)\n" + text + "(check-sat)\n"
	all, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct {
		a   Answer
		n   string
		out string
	}
	abs := ""
	if t, ok := abstractStrings(text); ok {
		abs = "(set-logic ALL)\n" + t + "(check-sat)\n"
		cands = append([][]string{{"abs", "z3-new", "-in", "-smt2"}}, cands...)
	}
	ch := make(chan r, len(cands))
	for _, c := range cands {
		go func(c []string) {
			s.sem <- struct{}{}
			defer func() { <-s.sem }()
			if all.Err() != nil {
				ch <- r{Unknown, c[0], ""}
				return
			}
			ctx, stop := context.WithTimeout(all, limit)
			defer stop()
			t0 := time.Now()
			var a Answer
			var out string
			if c[0] == "abs" {
				a, out = oneShot(ctx, abs, c[1], c[2:]...)
				if a == Sat {
					a = Unknown
				}
				if strings.Contains(out, "(error") {
					s.noteErr(out, abs)
				}
			} else {
				a, out = oneShot(ctx, full, c[0], c[1:]...)
			}
			atomic.AddInt64(&s.stat.ns, int64(time.Since(t0)))
			atomic.AddInt64(&s.stat.queries, 1)
			ch <- r{a, c[0], out}
		}(c)
	}
	var outs []string
	for range cands {
		x := <-ch
		if x.a != Unknown {
			return x.a, x.n, x.out
		}
		outs = append(outs, x.n+": "+strings.TrimSpace(x.out))
	}
	return Unknown, "", strings.Join(outs, "\n")
}

// Decide tries the fast back end first and then the others.
func (s *Solvers) Decide(text string, ms int) Answer {
	if a := s.Quick(text, 400); a != Unknown {
		return a
	}
	key := sha256.Sum256([]byte("D" + text))
	if v, ok := s.cache.Load(key); ok {
		return v.(Answer)
	}
	a, _, _ := s.race(text, time.Duration(ms)*time.Millisecond, [][]string{
		{"cvc5", "--strings-exp", "--lang=smt2"},
		{"z3", "-in", "-smt2"},
		{"z3-new", "-in", "-smt2"},
	})
	s.cache.Store(key, a)
	return a
}

func oneShot(ctx context.Context, text string, name string, args ...string) (Answer, string) {
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(text)
	out, _ := cmd.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			return Sat, string(out)
		case "unsat":
			return Unsat, string(out)
		}
	}
	return Unknown, string(out)
}

// Prove checks that the assertions are unsatisfiable; returns the back end that decided.
func (s *Solvers) Prove(text string, limit time.Duration) (Answer, string, string) {
	if a := s.Quick(text, 1000); a != Unknown {
		return a, "z3-new", ""
	}
	key := sha256.Sum256([]byte("P" + text))
	if v, ok := s.cache.Load(key); ok {
		return v.(Answer), "cache", ""
	}
	a, n, out := s.race(text, limit, [][]string{
		{"cvc5", "--strings-exp", "--lang=smt2"},
		{"z3", "-in", "-smt2"},
		{"z3-new", "-in", "-smt2"},
		{"z3-new", "-in", "-smt2", "smt.random_seed=7", "smt.arith.solver=2"},
		{"cvc5", "--strings-exp", "--lang=smt2", "--enum-inst"},
	})
	if a != Unknown {
		s.cache.Store(key, a)
	}
	return a, n, out
}

func (s *Solvers) noteErr(msg, text string) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "SOLVER ERROR:", msg)
		os.WriteFile("/tmp/govc_bad.smt2", []byte(text), 0644)
	}
}
