// Replay harness: exercises /repo through its exported interface against
// oracles written from the property statements alone. It is compiled into the
// repository's module through an overlay and is never counted as a proof.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Fail is one concrete input on which the property does not hold.
type Fail struct {
	Input any    `json:"input"`
	What  string `json:"what"`
	Got   string `json:"got"`
	Want  string `json:"want"`
	Case  int64  `json:"case"`
}

type result struct {
	Property    string            `json:"property"`
	Seed        int64             `json:"seed"`
	Evaluations int64             `json:"evaluations"`
	Distinct    int               `json:"distinct_nontrivial"`
	Rule        string            `json:"rule"`
	Samples     []any             `json:"samples"`
	Fails       []Fail            `json:"fails"`
	Known       map[string]string `json:"known"`
	Ms          int64             `json:"ms"`
}

// H is one harness run.
type H struct {
	*rand.Rand
	mu    sync.Mutex
	res   result
	seen  map[uint64]bool
	end   time.Time
	out   string
	cur   atomic.Pointer[any]
	since atomic.Int64
	n     int64
}

func (h *H) more() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return time.Now().Before(h.end) && len(h.res.Fails) < 3
}

// run executes one case; a panic is a failure of the property.
func (h *H) run(input any, f func()) {
	h.n++
	h.cur.Store(&input)
	h.since.Store(time.Now().UnixNano())
	defer h.since.Store(0)
	defer func() {
		if r := recover(); r != nil {
			h.fail(input, "panic", fmt.Sprint(r)+"\n"+string(debug.Stack()), "a normal return")
		}
	}()
	f()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.res.Evaluations++
	if len(h.seen) < 200000 {
		b, _ := json.Marshal(input)
		k := fnv.New64a()
		k.Write(b)
		if !h.seen[k.Sum64()] {
			h.seen[k.Sum64()] = true
			if len(h.res.Samples) < 3 && len(b) < 2000 {
				h.res.Samples = append(h.res.Samples, json.RawMessage(b))
			}
		}
	}
}

func (h *H) fail(input any, what, got, want string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.res.Fails) < 5 {
		h.res.Fails = append(h.res.Fails, Fail{input, what, got, want, h.n})
	}
}
func (h *H) eq(input any, what string, got, want any) bool {
	g, w := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want)
	if g != w {
		h.fail(input, what, g, w)
		return false
	}
	return true
}
func (h *H) ok(input any, what string, ok bool) bool {
	if !ok {
		h.fail(input, what, "false", "true")
	}
	return ok
}
func (h *H) known(id, what string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if _, ok := h.res.Known[id]; !ok {
		h.res.Known[id] = what
	}
}

func (h *H) flush() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.res.Distinct = len(h.seen)
	b, err := json.MarshalIndent(h.res, "", " ")
	if err != nil {
		for i := range h.res.Fails {
			h.res.Fails[i].Input = fmt.Sprintf("%#v", h.res.Fails[i].Input)
		}
		b, _ = json.MarshalIndent(h.res, "", " ")
	}
	os.WriteFile(h.out, b, 0644)
}

func pick[T any](h *H, xs []T) T { return xs[h.Intn(len(xs))] }
func (h *H) chance(p float64) bool { return h.Float64() < p }

var props = map[string]struct {
	rule string
	f    func(h *H)
}{}

func reg(id, rule string, f func(h *H)) {
	props[id] = struct {
		rule string
		f    func(h *H)
	}{rule, f}
}

func main() {
	if len(os.Args) < 5 {
		fmt.Println("usage: harness PROP SEED SECONDS OUT.json")
		os.Exit(2)
	}
	id := os.Args[1]
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	secs, _ := strconv.ParseFloat(os.Args[3], 64)
	p, ok := props[id]
	if !ok {
		fmt.Println("no harness for", id)
		os.Exit(2)
	}
	h := &H{Rand: rand.New(rand.NewSource(seed)), seen: map[uint64]bool{}, out: os.Args[4]}
	h.res = result{Property: id, Seed: seed, Rule: p.rule, Known: map[string]string{}, Samples: []any{}, Fails: []Fail{}}
	t0 := time.Now()
	h.end = t0.Add(time.Duration(secs * float64(time.Second)))
	go func() {
		for {
			time.Sleep(time.Second)
			s := h.since.Load()
			if s != 0 && time.Now().UnixNano()-s > int64(30*time.Second) {
				h.fail(*h.cur.Load(), "no return within 30 s", "still running", "a return")
				h.flush()
				os.Exit(1)
			}
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				h.fail("harness", "panic outside a case", fmt.Sprint(r)+"\n"+string(debug.Stack()), "")
			}
		}()
		p.f(h)
	}()
	h.res.Ms = time.Since(t0).Milliseconds()
	h.flush()
	if len(h.res.Fails) > 0 {
		os.Exit(1)
	}
}
