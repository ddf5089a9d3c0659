// Command harness searches for a concrete input (or schedule) on which the
// real code breaks a property.  It is run when a proof obligation fails, to
// replay the failure against the real code, and by the thorough tier as a
// bounded cross-check of the contracts that are assumed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is the state of one search.
type Ctx struct {
	prop     string
	rng      *rand.Rand
	seed     int64
	deadline time.Time
	cases    int
	only     int
	cur      atomic.Value
	mu       sync.Mutex
}

type failure struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Case     int    `json:"case"`
	Input    string `json:"input"`
	Observed string `json:"observed"`
	Stacks   string `json:"stacks,omitempty"`
}

func (c *Ctx) report(input, observed, stacks string) {
	c.mu.Lock()
	b, _ := json.MarshalIndent(failure{c.prop, c.seed, c.cases, input, observed, stacks}, "", " ")
	fmt.Printf("FAILURE %s\n", b)
	os.Stdout.Sync()
	os.Exit(1)
}

type check struct{ msg string }

// failf aborts the current case.
func failf(f string, a ...any) { panic(check{fmt.Sprintf(f, a...)}) }

var caseTimeout = 8 * time.Second

// try runs one case; a failing or hanging case ends the search.
func (c *Ctx) try(input string, f func()) {
	c.cases++
	c.cur.Store(input)
	fmt.Fprintf(progress, "case %d: %s\n", c.cases, input)
	done := make(chan string, 1)
	go func() {
		msg := ""
		defer func() {
			if x := recover(); x != nil {
				if k, ok := x.(check); ok {
					msg = k.msg
				} else {
					msg = fmt.Sprintf("unexpected panic: %v", x)
				}
			}
			done <- msg
		}()
		f()
	}()
	t := time.NewTimer(caseTimeout)
	defer t.Stop()
	select {
	case msg := <-done:
		if msg != "" {
			c.report(input, msg, "")
		}
	case <-t.C:
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		c.report(input, "the call did not return (deadlock or lost wake-up)", string(buf[:n]))
	}
}

func (c *Ctx) more() bool { return time.Now().Before(c.deadline) }

// catch returns the value f panics with (nil if it does not panic).
func catch(f func()) (p any, panicked bool) {
	defer func() {
		if p = recover(); p != nil {
			panicked = true
		}
	}()
	f()
	return nil, false
}

var registry = map[string]func(c *Ctx){}
var progress = os.Stderr

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "random seed")
	budget := flag.Float64("budget", 20, "seconds")
	flag.Parse()
	f := registry[*prop]
	if f == nil {
		fmt.Println("NOHARNESS")
		return
	}
	runtime.GOMAXPROCS(max(4, runtime.NumCPU()))
	progress, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if p := os.Getenv("HARNESS_PROGRESS"); p != "" {
		progress, _ = os.Create(p)
	}
	c := &Ctx{prop: *prop, rng: rand.New(rand.NewSource(*seed)), seed: *seed, deadline: time.Now().Add(time.Duration(*budget * float64(time.Second)))}
	f(c)
	fmt.Printf("OK %d cases\n", c.cases)
}
