package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/intel/forGoParallel/pipeline"
)

func init() {
	registry["C16"] = c16
	registry["C17"] = c17
	registry["C18"] = c18
	registry["C19"] = func(c *Ctx) { ctors(c); pipes(c, "deliver") }
	registry["C20"] = func(c *Ctx) { pipes(c, "order") }
	registry["C21"] = func(c *Ctx) { pipes(c, "overlap") }
	registry["C22"] = func(c *Ctx) { pipes(c, "strict") }
	registry["C23"] = func(c *Ctx) { pipes(c, "final") }
	registry["C24"] = c24
	registry["C25"] = c25
	registry["C26"] = c26
	registry["C27"] = c27
	registry["C30"] = c30
	registry["C31"] = c31
	registry["C32"] = c32
}

// ---- sources

type fetcher interface {
	Err() error
	Prepare(context.Context) int
	Fetch(int) int
}

// drainSource drives the protocol of a source by hand.
func drainSource[T any](name string, src pipeline.Source[[]T], sizes func() int, want []T, eq func(a, b T) bool, known bool) {
	n := src.Prepare(context.Background())
	if known && n != len(want) {
		failf("%s: Prepare returned %d for %d elements", name, n, len(want))
	}
	if !known && n >= 0 && n != len(want) {
		failf("%s: Prepare returned %d for %d elements", name, n, len(want))
	}
	var got []T
	var batches [][]T
	for {
		k := sizes()
		f := src.Fetch(k)
		d := src.Data()
		if f != len(d) {
			failf("%s: Fetch(%d) returned %d but Data has %d elements", name, k, f, len(d))
		}
		if f > k {
			failf("%s: Fetch(%d) returned %d", name, k, f)
		}
		if f == 0 {
			break
		}
		batches = append(batches, d)
		if len(got)+f > len(want)+10 {
			failf("%s: more elements than the input has", name)
		}
		if f < k && len(got)+f < len(want) && known {
			failf("%s: Fetch(%d) returned %d although %d elements are left", name, k, f, len(want)-len(got))
		}
		got = append(got, d...)
	}
	// batches must still hold their elements after later fetches
	i := 0
	for _, b := range batches {
		for _, x := range b {
			if i >= len(want) || !eq(x, want[i]) {
				failf("%s: element %d is wrong: got %v", name, i, x)
			}
			i++
		}
	}
	if i != len(want) {
		failf("%s: %d of %d elements were delivered before Fetch returned 0", name, i, len(want))
	}
	for range 3 {
		if f := src.Fetch(5); f != 0 || len(src.Data()) != 0 {
			failf("%s: Fetch returned %d (%d elements) after the end", name, f, len(src.Data()))
		}
	}
	if err := src.Err(); err != nil {
		failf("%s: Err is %v", name, err)
	}
}

func ints(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func lines(n int) []string {
	s := make([]string, n)
	for i := range s {
		s[i] = fmt.Sprint("line ", i)
		if i%7 == 3 {
			s[i] = ""
		}
	}
	return s
}

func c16(c *Ctx) {
	eqi := func(a, b int) bool { return a == b }
	eqs := func(a, b string) bool { return a == b }
	for round := 0; round == 0 || c.more() && round < 60; round++ {
		for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, c.rng.Intn(300)} {
			for _, b := range []int{1, 2, 3, 4, 5, 7, 8, 64, 1000, -1} {
				sz := func() int {
					if b < 0 {
						return 1 + c.rng.Intn(9)
					}
					return b
				}
				c.try(fmt.Sprintf("Slice of %d elements, Fetch(%d)", n, b), func() {
					in := ints(n)
					drainSource[int]("Slice", pipeline.NewSlice(in), sz, ints(n), eqi, true)
					for i, x := range in {
						if x != i {
							failf("the input slice was modified")
						}
					}
				})
				ls := lines(n)
				text := strings.Join(ls, "\n")
				if n > 0 {
					text += "\n"
				}
				c.try(fmt.Sprintf("Scanner of %d lines, Fetch(%d)", n, b), func() {
					drainSource[string]("Scanner", pipeline.NewScanner(strings.NewReader(text)), sz, ls, eqs, false)
				})
				c.try(fmt.Sprintf("BytesScanner of %d lines, Fetch(%d)", n, b), func() {
					var bs [][]byte
					for _, l := range ls {
						bs = append(bs, []byte(l))
					}
					drainSource[[]byte]("BytesScanner", pipeline.NewBytesScanner(strings.NewReader(text)), sz, bs, func(a, b []byte) bool { return string(a) == string(b) }, false)
				})
				c.try(fmt.Sprintf("BytesScanner of %d words, Fetch(%d)", n, b), func() {
					var bs [][]byte
					var sb strings.Builder
					for i := 0; i < n; i++ {
						bs = append(bs, []byte(fmt.Sprint("w", i)))
						fmt.Fprint(&sb, "w", i, "  ")
					}
					s := pipeline.NewBytesScanner(strings.NewReader(sb.String()))
					s.Split(bufio.ScanWords)
					drainSource[[]byte]("BytesScanner", s, sz, bs, func(a, b []byte) bool { return string(a) == string(b) }, false)
				})
				c.try(fmt.Sprintf("MultiChan of %d elements, Fetch(%d)", n, b), func() {
					ch := make(chan int, c.rng.Intn(4))
					go func() {
						for i := 0; i < n; i++ {
							ch <- i
						}
						close(ch)
					}()
					drainSource[int]("MultiChan", pipeline.NewMultiChan(ch), sz, ints(n), eqi, false)
				})
				c.try(fmt.Sprintf("Func of %d elements, Fetch(%d)", n, b), func() {
					for _, known := range []bool{true, false} {
						i, prepared := 0, 0
						prep := func(context.Context) int { prepared++; return n }
						if !known {
							prep = nil
						}
						drainSource[int]("Func", pipeline.NewFunc(prep, func(k int) ([]int, int, error) {
							if k > n-i {
								k = n - i
							}
							d := ints(n)[i : i+k]
							i += k
							return d, k, nil
						}), sz, ints(n), eqi, known)
						if known && prepared != 1 {
							failf("Func: the prepare function was called %d times", prepared)
						}
					}
				})
				c.try(fmt.Sprintf("Chan of %d elements, Fetch(%d)", n, b), func() {
					ch := make(chan int, c.rng.Intn(4))
					go func() {
						for i := 0; i < n; i++ {
							ch <- i + 1
						}
						close(ch)
					}()
					src := pipeline.NewChan(ch)
					src.Prepare(context.Background())
					for i := 0; i < n; i++ {
						if f := src.Fetch(sz()); f != 1 || src.Data() != i+1 {
							failf("Chan: element %d: Fetch returned %d, Data %d", i, f, src.Data())
						}
					}
					if f := src.Fetch(sz()); f != 0 || src.Data() != 0 {
						failf("Chan: Fetch returned %d, Data %d at the end", f, src.Data())
					}
				})
			}
		}
		for _, b := range []int{1, 37, 512} {
			sz := func() int { return b }
			n := 5000
			var ls []string
			for i := 0; i < n; i++ {
				ls = append(ls, fmt.Sprintf("line %d of a long input", i))
			}
			text := strings.Join(ls, "\n")
			c.try(fmt.Sprintf("Scanner and BytesScanner of %d bytes, Fetch(%d)", len(text), b), func() {
				drainSource[string]("Scanner", pipeline.NewScanner(strings.NewReader(text)), sz, ls, eqs, false)
				var bs [][]byte
				for _, l := range ls {
					bs = append(bs, []byte(l))
				}
				drainSource[[]byte]("BytesScanner", pipeline.NewBytesScanner(strings.NewReader(text)), sz, bs, func(a, b []byte) bool { return string(a) == string(b) }, false)
			})
			c.try(fmt.Sprintf("appending to batches of a Slice, Fetch(%d)", b), func() {
				src := pipeline.NewSlice(ints(n))
				src.Prepare(context.Background())
				i := 0
				for src.Fetch(b) > 0 {
					d := src.Data()
					for _, x := range d {
						if x != i {
							failf("Slice: element %d is %d after appending to an earlier batch", i, x)
						}
						i++
					}
					_ = append(d, -1)
				}
			})
		}
		c.try("Chan and MultiChan with a cancelled context", func() {
			ctx, cancel := context.WithCancel(context.Background())
			ch := make(chan int)
			a := pipeline.NewChan(ch)
			b := pipeline.NewMultiChan(ch)
			a.Prepare(ctx)
			b.Prepare(ctx)
			go func() { ch <- 1; time.Sleep(time.Millisecond); cancel() }()
			if f := b.Fetch(5); f != 0 || len(b.Data()) != 0 {
				failf("MultiChan: Fetch returned %d, %d elements after cancellation", f, len(b.Data()))
			}
			if f := a.Fetch(1); f != 0 {
				failf("Chan: Fetch returned %d after cancellation", f)
			}
		})
		c.try("source errors", func() {
			e := errors.New("broken")
			f := pipeline.NewFunc(nil, func(int) ([]int, int, error) { return nil, 0, e })
			f.Prepare(context.Background())
			f.Fetch(1)
			if f.Err() != e {
				failf("Func: Err is %v", f.Err())
			}
			s := pipeline.NewScanner(strings.NewReader(strings.Repeat("x", 100)))
			s.Buffer(make([]byte, 10), 10)
			s.Prepare(context.Background())
			s.Fetch(3)
			if s.Err() == nil {
				failf("Scanner: a too long token gives no error")
			}
		})
		if round > 3 && !c.more() {
			break
		}
	}
}

// ---- instrumented source and node

type recSource struct {
	mu     sync.Mutex
	size   int // -1 unknown
	left   []int
	data   []int
	sizes  []int
	errAt  int // fetch number that sets err (-1 never)
	err    error
	prep   int
	onPrep func()
	exact  []int // batch lengths to return (nil: as asked)
	full   int   // fetches that returned data
}

func (s *recSource) Err() error { return s.err }
func (s *recSource) Prepare(context.Context) int {
	s.prep++
	if s.onPrep != nil {
		s.onPrep()
	}
	return s.size
}
func (s *recSource) Fetch(n int) int {
	s.sizes = append(s.sizes, n)
	if len(s.sizes)-1 == s.errAt {
		s.err = errors.New("source error")
	}
	if s.exact != nil && len(s.exact) > 0 {
		n = min(n, s.exact[0])
		s.exact = s.exact[1:]
	}
	n = min(n, len(s.left))
	if n < 0 {
		n = 0
	}
	s.data = s.left[:n:n]
	s.left = s.left[n:]
	if n > 0 {
		s.full++
	}
	return n
}
func (s *recSource) Data() []int { return s.data }

type recNode struct {
	log    *[]string
	name   string
	keep   bool
	begins int
	ends   int
	seqs   []int
	idx    []int
	bidx   []int
	data   [][]int
	fwd    bool
	fail   int
	p      *pipeline.Pipeline[[]int]
}

func (n *recNode) TryMerge(pipeline.Node[[]int]) bool { return false }
func (n *recNode) Begin(p *pipeline.Pipeline[[]int], index int, size *int) bool {
	n.begins++
	n.p = p
	n.bidx = append(n.bidx, index)
	return n.keep
}
func (n *recNode) StrictOrd() bool { return false }
func (n *recNode) Feed(p *pipeline.Pipeline[[]int], index, seqNo int, data []int) {
	if n.ends > 0 {
		failf("node %s: Feed after End", n.name)
	}
	n.seqs = append(n.seqs, seqNo)
	n.idx = append(n.idx, index)
	n.data = append(n.data, data)
	if n.fail == len(n.seqs)-1 {
		p.SetErr(errors.New("node error"))
	}
	if n.fwd {
		p.FeedForward(index, seqNo, data)
	}
}
func (n *recNode) End() { n.ends++; *n.log = append(*n.log, n.name) }

func ctors(c *Ctx) {
	c.try("filters made by Identity, Receive, Finalize and ReceiveAndFinalize", func() {
		for k, want := range []string{"", "r", "f", "rf"} {
			got := ""
			r := func(_ int, d []int) []int { got += "r"; return d }
			f := func() { got += "f" }
			fl := []pipeline.Filter[[]int]{pipeline.Identity[[]int], pipeline.Receive[[]int](r), pipeline.Finalize[[]int](f), pipeline.ReceiveAndFinalize[[]int](r, f)}[k]
			for _, n := range []int{-1, 0, 3} {
				got = ""
				m := n
				a, b := fl(nil, pipeline.Sequential, &m)
				if a != nil {
					a(0, nil)
				}
				if b != nil {
					b()
				}
				if got != want || m != n {
					failf("filter %d: receiver and finalizer %q, size %d became %d", k, got, n, m)
				}
			}
		}
	})
}

func c17(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 400; round++ {
		n := c.rng.Intn(40)
		if round < 5 {
			n = round
		}
		nb := c.rng.Intn(10)
		inc, mx := c.rng.Intn(5), c.rng.Intn(9)
		unknown := c.rng.Intn(2) == 0
		nodes := 1 + c.rng.Intn(4)
		keeps := make([]bool, nodes)
		for i := range keeps {
			keeps[i] = c.rng.Intn(4) != 0
		}
		errAt := -1
		if c.rng.Intn(4) == 0 {
			errAt = c.rng.Intn(4)
		}
		fail := -1
		if c.rng.Intn(5) == 0 {
			fail = c.rng.Intn(4)
		}
		c.try(fmt.Sprintf("Run: %d elements (size unknown: %v), NofBatches %d, batch sizes %d..%d, nodes kept %v, source error at fetch %d, node error at %d", n, unknown, nb, inc, mx, keeps, errAt, fail), func() {
			src := &recSource{size: n, left: ints(n), errAt: errAt}
			if unknown {
				src.size = -1
			}
			p := pipeline.New[[]int](src)
			if nb > 0 {
				p.NofBatches(nb)
			}
			if inc > 0 {
				p.SetVariableBatchSize(inc, mx)
			}
			var log []string
			var all []*recNode
			for i, k := range keeps {
				nd := &recNode{log: &log, name: fmt.Sprint(i), keep: k, fwd: true, fail: -1}
				all = append(all, nd)
				p.Add(nd)
			}
			var kept []*recNode
			for _, nd := range all {
				if nd.keep {
					kept = append(kept, nd)
				}
			}
			if len(kept) > 0 {
				kept[0].fail = fail
			}
			var notified, ready int32
			ch := make(chan bool, 2)
			p.Notify(func() { atomic.AddInt32(&notified, 1); ch <- true })
			p.Notify(func() { atomic.AddInt32(&ready, 1); ch <- true })
			p.Run()
			<-ch
			<-ch
			if notified != 1 || ready != 1 {
				failf("notifiers ran %d and %d times", notified, ready)
			}
			if src.prep != 1 {
				failf("the source was prepared %d times", src.prep)
			}
			stopped := p.Err() != nil
			for i, nd := range all {
				if nd.begins != 1 {
					failf("node %d: %d Begin calls", i, nd.begins)
				}
				if !nd.keep && (len(nd.seqs) > 0 || nd.ends > 0) {
					failf("node %d returned false from Begin but got %d batches, %d End calls", i, len(nd.seqs), nd.ends)
				}
			}
			if len(kept) > 0 && len(kept[0].seqs) != src.full {
				failf("%d batches were fetched, %d were fed", src.full, len(kept[0].seqs))
			}
			for i, nd := range kept {
				want := []int{}
				for k, s := range nd.seqs {
					if s != k {
						failf("node %s: batch number %d came at position %d", nd.name, s, k)
					}
					if nd.idx[k] != i {
						failf("node %s at position %d was fed with index %d", nd.name, i, nd.idx[k])
					}
					if nd.bidx[0] != i {
						failf("node %s at position %d: Begin with index %d", nd.name, i, nd.bidx[0])
					}
					if len(nd.data[k]) == 0 {
						failf("an empty batch was fed")
					}
					want = append(want, nd.data[k]...)
				}
				for k, x := range want {
					if x != k {
						failf("node %s: element %d is %d", nd.name, k, x)
					}
				}
				if !stopped {
					if len(want) != n {
						failf("node %s saw %d of %d elements", nd.name, len(want), n)
					}
					if nd.ends != 1 {
						failf("node %s: %d End calls", nd.name, nd.ends)
					}
				} else if nd.ends > 1 {
					failf("node %s: %d End calls", nd.name, nd.ends)
				}
				if len(nd.seqs) != len(kept[0].seqs) {
					failf("nodes saw different numbers of batches")
				}
			}
			if len(kept) > 0 {
				if errAt >= 0 && errAt < len(src.sizes) && p.Err() == nil {
					failf("the error of the source was dropped")
				}
				if fail >= 0 && fail < len(kept[0].seqs) {
					if p.Err() == nil {
						failf("the error set by a node was dropped")
					}
					if len(kept[0].seqs) > fail+1 {
						failf("batches were fed after the error was set")
					}
				}
				if errAt < 0 && fail < 0 && p.Err() != nil {
					failf("Err is %v", p.Err())
				}
			}
			if len(log) > 1 && !sort.StringsAreSorted(log) {
				failf("End was called in the order %v", log)
			}
		})
	}
}

func c18(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 600; round++ {
		n := c.rng.Intn(200)
		if round < 20 {
			n = round
		}
		nb := c.rng.Intn(30)
		inc, mx := c.rng.Intn(12)-1, c.rng.Intn(30)-1
		if c.rng.Intn(6) == 0 {
			inc, mx = 1<<62, 1<<62+5
		}
		unknown := c.rng.Intn(2) == 0
		for _, d := range []int{0, 1, nb, 2 * nb, n} {
			size := math.MaxInt - d
			c.try(fmt.Sprintf("batch size for an announced size of %d, NofBatches(%d)", size, nb), func() {
				k := nb
				if k < 1 {
					k = runtime.NumCPU()
				}
				asked := -1
				p := pipeline.New[[]int](pipeline.NewFunc(func(context.Context) int { return size }, func(n int) ([]int, int, error) {
					asked = n
					return nil, 0, nil
				}))
				if nb > 0 {
					p.NofBatches(nb)
				}
				var log []string
				p.Add(&recNode{log: &log, name: "x", keep: true, fail: -1})
				p.Run()
				if want := (size-1)/k + 1; asked != want {
					failf("Fetch was asked for %d elements, expected %d", asked, want)
				}
			})
		}
		c.try(fmt.Sprintf("batch sizes: %d elements (size unknown: %v), NofBatches(%d), SetVariableBatchSize(%d, %d)", n, unknown, nb, inc, mx), func() {
			src := &recSource{size: n, left: ints(n), errAt: -1}
			if unknown {
				src.size = -1
			}
			if n == 0 && !unknown {
				src.size = 0
			}
			p := pipeline.New[[]int](src)
			if got := p.NofBatches(nb); nb >= 1 && got != nb || nb < 1 && got != runtime.NumCPU() {
				failf("NofBatches(%d) returned %d", nb, got)
			}
			if nb >= 1 && p.NofBatches(0) != nb {
				failf("NofBatches(0) does not return the value set")
			}
			if inc != 0 || mx != 0 {
				p.SetVariableBatchSize(inc, mx)
			}
			var log []string
			nd := &recNode{log: &log, name: "x", keep: true, fail: -1}
			p.Add(nd)
			p.Run()
			if unknown {
				einc, emax := inc, mx
				if einc < 1 {
					einc = 512
				}
				if emax < 1 {
					emax = 4096
				}
				want := 0
				for i, s := range src.sizes {
					if want > emax-einc {
						want = emax
					} else {
						want += einc
					}
					if s != want {
						failf("fetch %d asked for %d elements, expected %d (increment %d, maximum %d)", i, s, want, einc, emax)
					}
				}
			} else {
				k := nb
				if k < 1 {
					k = runtime.NumCPU()
				}
				want := max(1, (n+k-1)/k)
				for i, s := range src.sizes {
					if s != want {
						failf("fetch %d asked for %d elements, expected %d for %d elements in %d batches", i, s, want, n, k)
					}
				}
				if len(nd.seqs) > k {
					failf("%d batches, %d were asked for", len(nd.seqs), k)
				}
			}
		})
	}
}

// ---- random pipelines

const step = 1_000_000

type nodeDesc struct {
	kind    string // ord seq par lpar strict
	filters int
	final   []bool
	recv    []bool
}

func (d nodeDesc) String() string {
	s := d.kind + "("
	for i := range d.recv {
		if i > 0 {
			s += " "
		}
		if d.recv[i] {
			s += "r"
		}
		if d.final[i] {
			s += "f"
		}
		if !d.recv[i] && !d.final[i] {
			s += "-"
		}
	}
	return s + ")"
}

var kinds = []string{"ord", "seq", "par", "lpar", "strict"}

func randNode(r *rand.Rand, ks []string) nodeDesc {
	d := nodeDesc{kind: ks[r.Intn(len(ks))]}
	k := r.Intn(4)
	if r.Intn(8) > 0 && k == 0 {
		k = 1
	}
	for i := 0; i < k; i++ {
		d.recv = append(d.recv, r.Intn(8) != 0)
		d.final = append(d.final, r.Intn(3) == 0)
	}
	d.filters = k
	return d
}

func mkNode[T any](kind string, fs ...pipeline.Filter[T]) pipeline.Node[T] {
	switch kind {
	case "ord":
		return pipeline.Ord(fs...)
	case "seq":
		return pipeline.Seq(fs...)
	case "par":
		return pipeline.Par(fs...)
	case "lpar":
		return pipeline.LimitedPar(fs...)
	default:
		return pipeline.StrictOrd(fs...)
	}
}

type stage struct {
	name    string
	kind    string
	mu      sync.Mutex
	seqs    []int
	cnt     map[int]int
	in      atomic.Int32
	maxIn   int32
	overlap atomic.Bool
}

// reorderNode hands batches on in an order of its own: batch k is held back
// until batch after[k] has arrived.
type reorderNode struct {
	release map[int][]int
	held    map[int][]int
}

func (n *reorderNode) TryMerge(pipeline.Node[[]int]) bool { return false }
func (n *reorderNode) Begin(p *pipeline.Pipeline[[]int], _ int, _ *int) bool {
	n.held = map[int][]int{}
	return true
}
func (n *reorderNode) StrictOrd() bool { return false }
func (n *reorderNode) Feed(p *pipeline.Pipeline[[]int], index, seqNo int, data []int) {
	n.held[seqNo] = data
	for _, k := range n.release[seqNo] {
		p.FeedForward(index, k, n.held[k])
	}
}
func (n *reorderNode) End() {}

func numbered(n int) (*recSource, []int) {
	return &recSource{size: n, left: ints(n), errAt: -1}, ints(n)
}

// arrivals: ordered nodes with batches that arrive in unusual orders.
func arrivals(c *Ctx) {
	for _, n := range []int{3, 5, 70, 300, 1500} {
		for _, how := range []string{"reversed", "shuffled", "pairs", "first last"} {
			for _, kind := range []string{"ord", "ord+seq", "seq+ord"} {
				c.try(fmt.Sprintf("%d batches arrive %s at a node %s", n, how, kind), func() {
					src, order := numbered(n)
					rel := map[int][]int{}
					switch how {
					case "reversed":
						sort.Sort(sort.Reverse(sort.IntSlice(order)))
						rel[n-1] = order
					case "shuffled":
						c.rng.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
						rel[n-1] = order
					case "first last":
						rel[n-1] = append(order[1:], 0)
					default:
						for i := 1; i < n; i += 2 {
							rel[i] = []int{i, i - 1}
						}
						if n%2 == 1 {
							rel[n-1] = []int{n - 1}
						}
					}
					p := pipeline.New[[]int](src)
					p.NofBatches(n)
					p.Add(&reorderNode{release: rel})
					var got []int
					r := pipeline.Receive(func(seqNo int, d []int) []int {
						if len(d) != 1 || d[0] != seqNo {
							failf("batch %d has the data %v", seqNo, d)
						}
						got = append(got, seqNo)
						return d
					})
					id := pipeline.Receive(func(seqNo int, d []int) []int { return d })
					switch kind {
					case "ord":
						p.Add(pipeline.Ord(r))
					case "ord+seq":
						p.Add(pipeline.Ord(r), pipeline.Seq(id))
					default:
						p.Add(pipeline.Seq(id), pipeline.Ord(r))
					}
					p.Run()
					if len(got) != n {
						failf("%d of %d batches were processed", len(got), n)
					}
					if !sort.IntsAreSorted(got) {
						failf("batches were processed in the order %v", got)
					}
				})
			}
		}
	}
}

// slowFirst: the first batches are slow, so that many later ones wait.
func slowFirst(c *Ctx, transform bool) {
	n := 4 * runtime.NumCPU()
	for _, mid := range []string{"lpar", "seq", "ord", "par", "strict"} {
		c.try(fmt.Sprintf("%d batches, the first ones slow, par, %s, strict (behind a transform: %v)", n, mid, transform), func() {
			src, _ := numbered(n)
			p := pipeline.New[[]int](src)
			p.NofBatches(n)
			slow := func(seqNo int, d []int) []int {
				if seqNo < 3 {
					time.Sleep(time.Duration(30-10*seqNo) * time.Millisecond)
				}
				return d
			}
			id := pipeline.Receive(func(seqNo int, d []int) []int { return d })
			var got []int
			last := pipeline.Receive(func(seqNo int, d []int) []int { got = append(got, seqNo); return d })
			if transform {
				q := pipeline.ParTransform(p, slow)
				q.Add(mkNode(mid, id), pipeline.StrictOrd(last))
			} else {
				p.Add(pipeline.Par(pipeline.Receive(slow)), mkNode(mid, id), pipeline.StrictOrd(last))
			}
			p.Run()
			if len(got) != n || !sort.IntsAreSorted(got) {
				failf("the strictly ordered node got %v", got)
			}
		})
	}
}

// busy: slow receivers, to see how many are active at the same time and
// whether finalizers wait for the last one.
func busy(c *Ctx) {
	n := 3*runtime.NumCPU() + 2
	for _, kind := range kinds {
		for _, next := range []string{"", "par", "seq"} {
			c.try(fmt.Sprintf("%d slow batches in a node %s followed by %q", n, kind, next), func() {
				src, _ := numbered(n)
				p := pipeline.New[[]int](src)
				p.NofBatches(n)
				limit := int32(1)
				switch kind {
				case "par":
					limit = int32(n)
				case "lpar":
					limit = int32(runtime.NumCPU())
				}
				var active, most, done, done2 atomic.Int32
				fin, fin2 := int32(-1), int32(n)
				slow := pipeline.ReceiveAndFinalize(func(seqNo int, d []int) []int {
					a := active.Add(1)
					for m := most.Load(); a > m && !most.CompareAndSwap(m, a); m = most.Load() {
					}
					time.Sleep(2 * time.Millisecond)
					if seqNo == n-1 {
						time.Sleep(10 * time.Millisecond)
					}
					active.Add(-1)
					done.Add(1)
					return d
				}, func() { fin = done.Load() })
				p.Add(mkNode(kind, slow))
				if next != "" {
					p.Add(mkNode(next, pipeline.ReceiveAndFinalize(func(seqNo int, d []int) []int { done2.Add(1); return d }, func() { fin2 = done2.Load() })))
				}
				p.Run()
				if most.Load() > limit {
					failf("%d receivers of a node %s were active at the same time", most.Load(), kind)
				}
				if fin != int32(n) || fin2 != int32(n) {
					failf("finalizers ran after %d and %d of %d batches", fin, fin2, n)
				}
			})
		}
	}
}

func pipes(c *Ctx, what string) {
	switch what {
	case "deliver", "order":
		arrivals(c)
	case "strict":
		slowFirst(c, false)
	case "overlap", "final":
		busy(c)
	}
	for round := 0; round == 0 || c.more() && round < 500; round++ {
		r := rand.New(rand.NewSource(c.rng.Int63()))
		n := r.Intn(60)
		nb := 1 + r.Intn(14)
		unknown := r.Intn(3) == 0
		ks := kinds
		if what == "strict" {
			ks = []string{"ord", "seq", "par", "lpar", "strict", "lpar", "strict", "seq"}
		}
		var descs []nodeDesc
		for k := 1 + r.Intn(5); k > 0; k-- {
			descs = append(descs, randNode(r, ks))
		}
		if round < len(kinds)*len(kinds) && round%2 == 0 {
			descs = []nodeDesc{
				{kind: kinds[round/len(kinds)], filters: 1, recv: []bool{true}, final: []bool{true}},
				{kind: kinds[round%len(kinds)], filters: 2, recv: []bool{true, true}, final: []bool{true, false}},
				{kind: kinds[(round/2)%len(kinds)], filters: 1, recv: []bool{true}, final: []bool{true}}}
		}
		procs := []int{1, 2, 4, 8}[r.Intn(4)]
		name := fmt.Sprintf("pipeline %v over %d elements in %d batches (size unknown: %v), GOMAXPROCS %d", descs, n, nb, unknown, procs)
		seed := r.Int63()
		c.try(name, func() { onePipe(what, descs, n, nb, unknown, procs, seed) })
	}
	runtime.GOMAXPROCS(max(4, runtime.NumCPU()))
}

func onePipe(what string, descs []nodeDesc, n, nb int, unknown bool, procs int, seed int64) {
	runtime.GOMAXPROCS(procs)
	var rmu sync.Mutex
	rr := rand.New(rand.NewSource(seed))
	jitter := func() {
		rmu.Lock()
		k := rr.Intn(12)
		rmu.Unlock()
		switch {
		case k < 3:
			runtime.Gosched()
		case k == 3:
			time.Sleep(time.Duration(20) * time.Microsecond)
		case k == 4:
			time.Sleep(time.Duration(150) * time.Microsecond)
		}
	}
	src := &recSource{size: n, left: ints(n), errAt: -1}
	bs := max(1, (n+nb-1)/nb)
	p := pipeline.New[[]int](src)
	if unknown {
		src.size = -1
		p.SetVariableBatchSize(bs, bs)
	}
	p.NofBatches(nb)
	nbat := (n + bs - 1) / bs
	var stages []*stage
	var fin []*int32
	var finAfter []func()
	var finBad atomic.Value
	k := 0
	atOnce := seed%2 == 0
	var nodes []pipeline.Node[[]int]
	for di, d := range descs {
		var fs []pipeline.Filter[[]int]
		for fi := range d.recv {
			var rcv pipeline.Receiver[[]int]
			var fz pipeline.Finalizer
			if d.recv[fi] {
				st := &stage{name: fmt.Sprintf("node %d (%s) receiver %d", di, d.kind, fi), kind: d.kind, cnt: map[int]int{}}
				stages = append(stages, st)
				depth := k
				k++
				rcv = func(seqNo int, data []int) []int {
					if st.in.Add(1) > 1 && st.kind != "par" && st.kind != "lpar" {
						st.overlap.Store(true)
					}
					jitter()
					st.mu.Lock()
					st.seqs = append(st.seqs, seqNo)
					st.cnt[seqNo]++
					if v := st.in.Load(); v > st.maxIn {
						st.maxIn = v
					}
					st.mu.Unlock()
					lo, hi := seqNo*bs, min(n, seqNo*bs+bs)
					if seqNo < 0 || lo >= n {
						finBad.CompareAndSwap(nil, fmt.Sprintf("%s got batch number %d", st.name, seqNo))
					} else if len(data) != hi-lo {
						finBad.CompareAndSwap(nil, fmt.Sprintf("%s: batch %d has %d elements instead of %d", st.name, seqNo, len(data), hi-lo))
					}
					out := make([]int, len(data))
					for i, x := range data {
						if x != lo+i+depth*step {
							finBad.CompareAndSwap(nil, fmt.Sprintf("%s: batch %d element %d has value %d instead of %d (filters skipped, repeated or out of order)", st.name, seqNo, i, x, lo+i+depth*step))
						}
						out[i] = x + step
					}
					st.in.Add(-1)
					return out
				}
			}
			if d.final[fi] {
				cnt := new(int32)
				fin = append(fin, cnt)
				upto := len(stages)
				nm := fmt.Sprintf("finalizer of node %d (%s) filter %d", di, d.kind, fi)
				fz = func() {
					atomic.AddInt32(cnt, 1)
					for _, st := range stages[:upto] {
						st.mu.Lock()
						got := len(st.seqs)
						st.mu.Unlock()
						if got != nbat || st.in.Load() != 0 {
							finBad.CompareAndSwap(nil, fmt.Sprintf("%s ran when %s had processed %d of %d batches", nm, st.name, got, nbat))
						}
					}
				}
			}
			var fl pipeline.Filter[[]int]
			switch {
			case rcv != nil && fz != nil:
				fl = pipeline.ReceiveAndFinalize(rcv, fz)
			case rcv != nil:
				fl = pipeline.Receive(rcv)
			case fz != nil:
				fl = pipeline.Finalize[[]int](fz)
			default:
				fl = pipeline.Identity[[]int]
			}
			fs = append(fs, fl)
		}
		if atOnce {
			nodes = append(nodes, mkNode(d.kind, fs...))
		} else {
			p.Add(mkNode(d.kind, fs...))
		}
	}
	p.Add(nodes...)
	_ = finAfter
	p.Run()
	if e := p.Err(); e != nil {
		failf("Err is %v", e)
	}
	if m := finBad.Load(); m != nil {
		failf("%s", m)
	}
	for i, f := range fin {
		if k := atomic.LoadInt32(f); k != 1 {
			failf("finalizer %d ran %d times", i, k)
		}
	}
	for _, st := range stages {
		if len(st.seqs) != nbat {
			failf("%s processed %d of %d batches", st.name, len(st.seqs), nbat)
		}
		for b := 0; b < nbat; b++ {
			if st.cnt[b] != 1 {
				failf("%s got batch %d %d times", st.name, b, st.cnt[b])
			}
		}
		if st.overlap.Load() {
			failf("%s was invoked for two batches at the same time", st.name)
		}
		if st.kind == "ord" || st.kind == "strict" {
			for i, s := range st.seqs {
				if s != i {
					failf("%s got the batches in the order %v", st.name, st.seqs)
				}
			}
		}
		if st.kind == "lpar" && st.maxIn > int32(runtime.NumCPU()) {
			failf("%s: %d batches at the same time", st.name, st.maxIn)
		}
	}
	// a node that promises order must not lose its peers' order either: adjacent receivers agree
}

// ---- errors

func c24(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 200; round++ {
		k := 1 + c.rng.Intn(8)
		c.try(fmt.Sprintf("%d concurrent SetErr calls", k), func() {
			src := &recSource{size: 64, left: ints(64), errAt: -1}
			p := pipeline.New[[]int](src)
			p.NofBatches(16)
			var wins atomic.Int32
			var win atomic.Value
			if p.Err() != nil {
				failf("Err of a new pipeline is %v", p.Err())
			}
			p.Add(pipeline.Par(pipeline.Receive(func(seqNo int, data []int) []int {
				if seqNo < k {
					e := fmt.Errorf("error %d", seqNo)
					if p.SetErr(e) {
						wins.Add(1)
						win.Store(e)
					}
					if p.Err() == nil {
						win.Store(errors.New("Err is nil after SetErr"))
						wins.Add(100)
					}
					select {
					case <-p.Context().Done():
					case <-time.After(2 * time.Second):
						wins.Add(100)
					}
				}
				return data
			})))
			p.Run()
			if wins.Load() >= 100 {
				failf("SetErr did not set the error or did not cancel the context")
			}
			if wins.Load() > 1 {
				failf("%d SetErr calls succeeded", wins.Load())
			}
			for i := 0; i < 1000 && wins.Load() == 1 && win.Load() == nil; i++ {
				time.Sleep(time.Millisecond) // the run may return before the receivers that set the error
			}
			if wins.Load() == 1 && p.Err() != win.Load() {
				failf("Err is %v, the successful SetErr had %v", p.Err(), win.Load())
			}
			first := errors.New("late")
			was := p.Err()
			if ok := p.SetErr(first); ok != (was == nil) {
				failf("SetErr returned %v with Err %v", ok, was)
			}
			if was != nil && p.Err() != was || was == nil && p.Err() != first {
				failf("Err is %v", p.Err())
			}
			sz := len(src.sizes)
			p.Run()
			if len(src.sizes) != sz {
				failf("a pipeline with an error ran again")
			}
		})
		c.try("pipeline with error set by the first Begin", func() {
			src := &recSource{size: 6, left: ints(6), errAt: -1}
			p := pipeline.New[[]int](src)
			e := errors.New("begin")
			ran := false
			p.Add(pipeline.Par(func(p *pipeline.Pipeline[[]int], _ pipeline.NodeKind, _ *int) (pipeline.Receiver[[]int], pipeline.Finalizer) {
				p.SetErr(e)
				return func(_ int, d []int) []int { ran = true; return d }, nil
			}))
			p.Run()
			if p.Err() != e || ran || len(src.sizes) > 0 {
				failf("Err %v, receivers ran: %v, fetches: %d", p.Err(), ran, len(src.sizes))
			}
		})
	}
}

// ---- filters

func batches(r *rand.Rand, n int) []int {
	var out []int
	for n > 0 {
		k := 1 + r.Intn(min(n, 7))
		out = append(out, k)
		n -= k
	}
	return out
}

func srcOf(r *rand.Rand, n int, unknown bool) *recSource {
	s := &recSource{size: n, left: ints(n), errAt: -1}
	if unknown {
		s.size = -1
	}
	return s
}

func c25(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 300; round++ {
		r := c.rng
		n := r.Intn(40)
		nb := 1 + r.Intn(10)
		unknown := r.Intn(2) == 0
		bad := map[int]bool{}
		for k := r.Intn(4); k > 0; k-- {
			bad[r.Intn(n+3)] = true
		}
		cancel := r.Intn(3) == 0
		for _, kind := range kinds {
			for _, f := range []string{"Every", "NotEvery", "Some", "NotAny"} {
				c.try(fmt.Sprintf("%s in a %s node, %d elements, %d batches, predicate false on %v, cancel %v", f, kind, n, nb, bad, cancel), func() {
					p := pipeline.New[[]int](srcOf(r, n, unknown))
					p.NofBatches(nb)
					p.SetVariableBatchSize(3, 5)
					anyFalse, anyTrue := false, false
					var mu sync.Mutex
					pred := func(d []int) bool {
						ok := true
						for _, x := range d {
							if bad[x] {
								ok = false
							}
						}
						mu.Lock()
						if ok {
							anyTrue = true
						} else {
							anyFalse = true
						}
						mu.Unlock()
						return ok
					}
					var res, want bool
					var fl pipeline.Filter[[]int]
					res = r.Intn(2) == 0
					switch f {
					case "Every":
						fl = pipeline.Every(&res, cancel, pred)
					case "NotEvery":
						fl = pipeline.NotEvery(&res, cancel, pred)
					case "Some":
						fl = pipeline.Some(&res, cancel, pred)
					default:
						fl = pipeline.NotAny(&res, cancel, pred)
					}
					var seen []int
					var smu sync.Mutex
					p.Add(mkNode(kind, fl, pipeline.Receive(func(_ int, d []int) []int {
						smu.Lock()
						seen = append(seen, d...)
						smu.Unlock()
						return d
					})))
					p.Run()
					switch f {
					case "Every":
						want = !anyFalse
					case "NotEvery":
						want = anyFalse
					case "Some":
						want = anyTrue
					default:
						want = !anyTrue
					}
					if res != want {
						failf("result %v, expected %v (some batch true: %v, some batch false: %v)", res, want, anyTrue, anyFalse)
					}
					if !cancel {
						sort.Ints(seen)
						for i, x := range seen {
							if x != i {
								failf("data was changed by the filter")
							}
						}
						if len(seen) != n {
							failf("%d of %d elements passed", len(seen), n)
						}
					}
					decides := anyFalse
					if f == "Some" || f == "NotAny" {
						decides = anyTrue
					}
					_ = decides
				})
			}
		}
		c.try("cancelWhenKnown", func() {
			for _, f := range []string{"Every", "NotEvery", "Some", "NotAny"} {
				for _, kind := range kinds {
					for _, cancel := range []bool{true, false} {
						for _, decisive := range []bool{true, false} {
							p := pipeline.New[[]int](srcOf(r, 30, false))
							p.NofBatches(10)
							v := decisive == (f == "Some" || f == "NotAny")
							var res bool
							pred := func(d []int) bool { return v }
							var fl pipeline.Filter[[]int]
							switch f {
							case "Every":
								fl = pipeline.Every(&res, cancel, pred)
							case "NotEvery":
								fl = pipeline.NotEvery(&res, cancel, pred)
							case "Some":
								fl = pipeline.Some(&res, cancel, pred)
							default:
								fl = pipeline.NotAny(&res, cancel, pred)
							}
							p.Add(mkNode(kind, fl))
							ctx, cf := context.WithCancel(context.Background())
							p.RunWithContext(ctx, cf)
							if got := ctx.Err() != nil; got != (cancel && decisive) {
								failf("%s in a %s node: cancelled %v with cancelWhenKnown %v, decisive predicate %v", f, kind, got, cancel, decisive)
							}
							cf()
						}
					}
				}
			}
		})
	}
}

func c26(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 300; round++ {
		r := c.rng
		n := r.Intn(50)
		nb := 1 + r.Intn(10)
		pre := r.Intn(3)
		for _, kind := range kinds {
			for _, unknown := range []bool{true, false} {
				c.try(fmt.Sprintf("Count and Append in a %s node, %d elements, %d batches, size unknown: %v", kind, n, nb, unknown), func() {
					p := pipeline.New[[]int](srcOf(r, n, unknown))
					p.NofBatches(nb)
					p.SetVariableBatchSize(1+r.Intn(3), 4)
					count := 77 * pre
					res := ints(pre)
					p.Add(mkNode(kind, pipeline.Count[int](&count), pipeline.Append(&res)))
					p.Run()
					if count != n {
						failf("Count is %d for %d elements (the variable was %d before)", count, n, 77*pre)
					}
					if len(res) != pre+n {
						failf("Append: %d elements, expected %d", len(res), pre+n)
					}
					got := append([]int{}, res[pre:]...)
					if kind == "par" || kind == "lpar" {
						sort.Ints(got)
					}
					for i, x := range got {
						if x != i {
							failf("Append: element %d is %d", i, x)
						}
					}
				})
			}
		}
	}
}

func c27(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 400; round++ {
		r := c.rng
		n := r.Intn(40)
		nb := 1 + r.Intn(10)
		k := r.Intn(45) - 2
		if r.Intn(10) == 0 {
			k = int(^uint(0) >> 1)
		}
		unknown := r.Intn(2) == 0
		kind := kinds[r.Intn(len(kinds))]
		before := []string{"", "par", "seq", "lpar"}[r.Intn(4)]
		for _, f := range []string{"Limit", "Skip", "Skip+Limit", "Limit+Skip", "LimitC"} {
			k2 := r.Intn(45)
			c.try(fmt.Sprintf("%s(%d, %d), %d elements, %d batches, size unknown: %v, %s before, %s after", f, k, k2, n, nb, unknown, before, kind), func() {
				p := pipeline.New[[]int](srcOf(r, n, unknown))
				p.NofBatches(nb)
				p.SetVariableBatchSize(1+r.Intn(3), 4)
				if before != "" {
					p.Add(mkNode(before, pipeline.Receive(func(_ int, d []int) []int {
						runtime.Gosched()
						return d
					})))
				}
				lo, hi := 0, n
				limit := func(k int) {
					if k >= 0 && hi-lo > k {
						hi = lo + k
					}
				}
				skip := func(k int) {
					if hi-lo > k {
						lo += k
					} else {
						lo = hi
					}
				}
				switch f {
				case "Limit":
					p.Add(pipeline.Limit[int](k, false))
					limit(k)
				case "LimitC":
					p.Add(pipeline.Limit[int](k, true))
					limit(k)
				case "Skip":
					p.Add(pipeline.Skip[int](k))
					skip(k)
				case "Skip+Limit":
					p.Add(pipeline.Skip[int](k), pipeline.Limit[int](k2, false))
					skip(k)
					limit(k2)
				default:
					p.Add(pipeline.Limit[int](k2, false), pipeline.Skip[int](k))
					limit(k2)
					skip(k)
				}
				var res []int
				count, count2 := -5, 0
				var mu sync.Mutex
				p.Add(mkNode(kind, pipeline.Count[int](&count), pipeline.Receive(func(_ int, d []int) []int {
					mu.Lock()
					count2 += len(d)
					res = append(res, d...)
					mu.Unlock()
					return d
				})))
				p.Run()
				if strings.Contains(f, "Skip") && k < 0 {
					if p.Err() == nil || len(res) > 0 {
						failf("Skip(%d): Err %v, %d elements passed", k, p.Err(), len(res))
					}
					return
				}
				if p.Err() != nil {
					failf("Err is %v", p.Err())
				}
				if f == "LimitC" {
					if len(res) > hi-lo {
						failf("%d elements passed, limit %d", len(res), k)
					}
					sort.Ints(res)
					for i, x := range res {
						if x >= hi || i > 0 && res[i-1] == x {
							failf("element %d passed, limit %d", x, k)
						}
					}
					return
				}
				sort.Ints(res)
				if len(res) != hi-lo {
					failf("%d elements passed instead of [%d,%d)", len(res), lo, hi)
				}
				for i, x := range res {
					if x != lo+i {
						failf("element %d is %d, expected [%d,%d)", i, x, lo, hi)
					}
				}
				if count != hi-lo {
					failf("Count after the filter is %d, but %d elements passed", count, hi-lo)
				}
			})
		}
		c.try("Limit cancels when reached", func() {
			for _, cancel := range []bool{true, false} {
				for _, lim := range []int{0, 3, 5, 30, 31} {
					p := pipeline.New[[]int](srcOf(r, 30, unknown))
					p.NofBatches(6)
					p.SetVariableBatchSize(5, 5)
					p.Add(pipeline.Limit[int](lim, cancel))
					ctx, cf := context.WithCancel(context.Background())
					p.RunWithContext(ctx, cf)
					got := ctx.Err() != nil
					reach := lim <= 30
					if lim == 30 && !unknown {
						reach = got // exact size: the filter is a no-op
					}
					if got != (cancel && reach) {
						failf("Limit(%d, %v) of 30 elements: cancelled %v", lim, cancel, got)
					}
					cf()
				}
			}
		})
	}
}

// ---- cancellation

func c30(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 4000; round++ {
		r := rand.New(rand.NewSource(c.rng.Int63()))
		var descs []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			descs = append(descs, kinds[r.Intn(len(kinds))])
		}
		if round%3 == 0 {
			descs = []string{"par", "strict"}
		}
		if round%3 == 1 {
			descs = []string{"par", "lpar", "strict"}
		}
		n := 20 + r.Intn(60)
		at := r.Intn(n)
		where := r.Intn(len(descs))
		how := []string{"Cancel", "SetErr", "outside"}[r.Intn(3)]
		procs := []int{1, 2, 4, 8}[r.Intn(4)]
		src := []string{"slice", "chan", "multichan"}[r.Intn(3)]
		if src == "multichan" {
			at = min(at, n/2)
		}
		c.try(fmt.Sprintf("pipeline %v, %d batches from a %s, %s at batch %d of node %d, GOMAXPROCS %d", descs, n, src, how, at, where, procs), func() {
			runtime.GOMAXPROCS(procs)
			var p *pipeline.Pipeline[[]int]
			stop := make(chan bool)
			defer close(stop)
			if src == "slice" {
				p = pipeline.New[[]int](srcOf(r, n, false))
				p.NofBatches(n)
			} else {
				ch := make(chan int)
				go func() {
					for i := 0; i < 3*n; i++ {
						select {
						case ch <- i:
						case <-stop:
							return
						}
					}
				}()
				if src == "chan" {
					c2 := make(chan []int)
					go func() {
						for {
							select {
							case x := <-ch:
								select {
								case c2 <- []int{x}:
								case <-stop:
									return
								}
							case <-stop:
								return
							}
						}
					}()
					p = pipeline.New[[]int](pipeline.NewChan(c2))
				} else {
					p = pipeline.New[[]int](pipeline.NewMultiChan(ch))
					p.SetVariableBatchSize(1, 2)
				}
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			e := errors.New("stop")
			for i, k := range descs {
				p.Add(mkNode(k, pipeline.Receive(func(seqNo int, d []int) []int {
					if i == where && seqNo == at {
						switch how {
						case "Cancel":
							p.Cancel()
						case "SetErr":
							p.SetErr(e)
						default:
							cancel()
						}
					} else if seqNo%3 == 0 {
						runtime.Gosched()
					}
					return d
				})))
			}
			p.RunWithContext(ctx, cancel)
			if how == "SetErr" && p.Err() != e {
				failf("Err is %v", p.Err())
			}
			if how != "SetErr" && p.Err() != nil {
				failf("Err is %v", p.Err())
			}
		})
	}
	runtime.GOMAXPROCS(max(4, runtime.NumCPU()))
}

// ---- merging

func c31(c *Ctx) {
	for _, a := range kinds {
		for _, b := range kinds {
			for _, atOnce := range []bool{false, true} {
				c.try(fmt.Sprintf("merging %s and %s (added at once: %v): slices of the caller", a, b, atOnce), func() {
					src, _ := numbered(4)
					p := pipeline.New[[]int](src)
					var mu sync.Mutex
					var log []string
					f := func(s string) pipeline.Filter[[]int] {
						return pipeline.Receive(func(seqNo int, d []int) []int {
							mu.Lock()
							log = append(log, fmt.Sprint(s, seqNo))
							mu.Unlock()
							return d
						})
					}
					p.NofBatches(1)
					fs := []pipeline.Filter[[]int]{f("x"), f("y"), f("z")}
					ns := []pipeline.Node[[]int]{mkNode(a, fs[:1]...), mkNode(b, f("b")), mkNode(b, fs[2:]...), mkNode(a, fs[1:2]...)}
					if atOnce {
						p.Add(ns[:3]...)
					} else {
						p.Add(ns[0])
						p.Add(ns[1])
						p.Add(ns[2])
					}
					p.Add(ns[3])
					p.Run()
					if got := strings.Join(log, " "); got != "x0 b0 z0 y0" {
						failf("filters ran as %q", got)
					}
				})
			}
		}
	}
	c.try("appending to the list of nodes of the caller", func() {
		src, _ := numbered(2)
		p := pipeline.New[[]int](src)
		p.NofBatches(1)
		var n [3]int
		nd := func(k int) pipeline.Node[[]int] {
			return pipeline.Seq(pipeline.Receive(func(_ int, d []int) []int { n[k]++; return d }))
		}
		other := nd(2)
		ns := []pipeline.Node[[]int]{nd(0), other, nil}
		p.Add(ns[:1]...)
		p.Add(pipeline.Par(pipeline.Receive(func(_ int, d []int) []int { n[1]++; return d })))
		if ns[1] != other || ns[2] != nil {
			failf("Add wrote into the list of the caller")
		}
		p.Run()
		if n != [3]int{1, 1, 0} {
			failf("receivers ran %v times", n)
		}
	})
	arrivals(c)
	for round := 0; round == 0 || c.more() && round < 300; round++ {
		r := rand.New(rand.NewSource(c.rng.Int63()))
		var descs []nodeDesc
		for k := 2 + r.Intn(4); k > 0; k-- {
			d := randNode(r, kinds)
			if r.Intn(2) == 0 && len(descs) > 0 {
				d.kind = descs[len(descs)-1].kind
			}
			descs = append(descs, d)
		}
		if round%3 == 0 { // nodes that vanish at Begin, between mergeable neighbours
			k := kinds[r.Intn(len(kinds))]
			m := kinds[r.Intn(len(kinds))]
			descs = []nodeDesc{{kind: k, filters: 1, recv: []bool{true}, final: []bool{true}},
				{kind: m, filters: 1, recv: []bool{false}, final: []bool{false}},
				{kind: k, filters: 1, recv: []bool{true}, final: []bool{true}},
				{kind: kinds[r.Intn(len(kinds))], filters: 1, recv: []bool{true}, final: []bool{true}}}
		}
		n := r.Intn(40)
		nb := 1 + r.Intn(12)
		seed := r.Int63()
		c.try(fmt.Sprintf("merging: pipeline %v over %d elements in %d batches", descs, n, nb), func() {
			onePipe("merge", descs, n, nb, r.Intn(2) == 0, []int{1, 2, 8}[r.Intn(3)], seed)
		})
	}
	runtime.GOMAXPROCS(max(4, runtime.NumCPU()))
}

// ---- transforms

func c32(c *Ctx) {
	fns := map[string]func(*pipeline.Pipeline[[]int], func(int, []int) []string) *pipeline.Pipeline[[]string]{
		"Transform":           pipeline.Transform[[]int, []string],
		"OrdTransform":        pipeline.OrdTransform[[]int, []string],
		"SeqTransform":        pipeline.SeqTransform[[]int, []string],
		"ParTransform":        pipeline.ParTransform[[]int, []string],
		"StrictOrdTransform":  pipeline.StrictOrdTransform[[]int, []string],
		"LimitedParTransform": pipeline.LimitedParTransform[[]int, []string],
	}
	slowFirst(c, true)
	for _, a := range kinds {
		for _, b := range kinds {
			c.try(fmt.Sprintf("behind a transform: two nodes that decline, %s, one that declines, %s", a, b), func() {
				src, _ := numbered(6)
				p := pipeline.New[[]int](src)
				p.NofBatches(6)
				q := pipeline.SeqTransform(p, func(_ int, d []int) []string { return make([]string, len(d)) })
				var n [2]atomic.Int32
				rcv := func(k int) pipeline.Filter[[]string] {
					return pipeline.Receive(func(_ int, d []string) []string { n[k].Add(1); return d })
				}
				q.Add(pipeline.Par[[]string](), pipeline.StrictOrd[[]string](), mkNode(a, rcv(0)), pipeline.LimitedPar[[]string](), mkNode(b, rcv(1)))
				var fin [2]int
				r := pipeline.Transform(q, func(_ int, d []string) []int { return make([]int, len(d)) })
				r.Add(pipeline.Par[[]int](), pipeline.Ord(pipeline.Finalize[[]int](func() { fin[0]++ })), pipeline.StrictOrd(pipeline.Finalize[[]int](func() { fin[1]++ })))
				p.Run()
				if n[0].Load() != 6 || n[1].Load() != 6 || fin != [2]int{1, 1} {
					failf("receivers ran %d and %d times, finalizers %v", n[0].Load(), n[1].Load(), fin)
				}
			})
		}
	}
	names := []string{"Transform", "OrdTransform", "SeqTransform", "ParTransform", "StrictOrdTransform", "LimitedParTransform"}
	for round := 0; round == 0 || c.more() && round < 400; round++ {
		r := rand.New(rand.NewSource(c.rng.Int63()))
		n := r.Intn(50)
		nb := 1 + r.Intn(12)
		bs := max(1, (n+nb-1)/nb)
		before := append([]string{""}, kinds...)[r.Intn(6)]
		after := kinds[r.Intn(5)]
		after2 := append([]string{""}, kinds...)[r.Intn(6)]
		nm := names[r.Intn(len(names))]
		procs := []int{1, 2, 4, 8}[r.Intn(4)]
		c.try(fmt.Sprintf("%s after %q, then %s and %q, %d elements in %d batches", nm, before, after, after2, n, nb), func() {
			runtime.GOMAXPROCS(procs)
			p := pipeline.New[[]int](srcOf(r, n, false))
			p.NofBatches(nb)
			if before != "" {
				p.Add(mkNode(before, pipeline.Receive(func(_ int, d []int) []int {
					runtime.Gosched()
					return d
				})))
			}
			var trans atomic.Int32
			q := fns[nm](p, func(seqNo int, d []int) []string {
				trans.Add(1)
				out := make([]string, len(d))
				for i, x := range d {
					out[i] = fmt.Sprint(seqNo, ":", x)
				}
				return out
			})
			var mu sync.Mutex
			var bad string
			var fins [2]int
			var seqs [2][]int
			add := func(which int, kind string) {
				q.Add(mkNode(kind, pipeline.ReceiveAndFinalize(func(seqNo int, d []string) []string {
					mu.Lock()
					defer mu.Unlock()
					seqs[which] = append(seqs[which], seqNo)
					for i, x := range d {
						if x != fmt.Sprint(seqNo, ":", seqNo*bs+i) {
							bad = fmt.Sprintf("batch %d element %d is %q", seqNo, i, x)
						}
					}
					if len(d) != min(n, seqNo*bs+bs)-seqNo*bs {
						bad = fmt.Sprintf("batch %d has %d elements", seqNo, len(d))
					}
					return d
				}, func() { mu.Lock(); fins[which]++; mu.Unlock() })))
			}
			add(0, after)
			if after2 != "" {
				add(1, after2)
			}
			switch r.Intn(2) {
			case 0:
				p.Run()
			default:
				q.Run()
			}
			if bad != "" {
				failf("%s", bad)
			}
			nbat := (n + bs - 1) / bs
			for which, kind := range []string{after, after2} {
				if kind == "" {
					continue
				}
				if fins[which] != 1 {
					failf("finalizer ran %d times", fins[which])
				}
				if len(seqs[which]) != nbat {
					failf("%d of %d batches arrived behind the transform", len(seqs[which]), nbat)
				}
				if kind == "ord" || kind == "strict" {
					if !sort.IntsAreSorted(seqs[which]) {
						failf("an ordered node behind the transform got the batches in the order %v", seqs[which])
					}
				}
				s := append([]int{}, seqs[which]...)
				sort.Ints(s)
				for i, x := range s {
					if x != i {
						failf("batches %v arrived", s)
					}
				}
			}
			if int(trans.Load()) != nbat {
				failf("the transform ran %d times for %d batches", trans.Load(), nbat)
			}
			if p.Err() != nil || q.Err() != nil {
				failf("Err %v %v", p.Err(), q.Err())
			}
		})
		// errors and cancellation are shared by both halves
		c.try("transform shares errors", func() {
			p := pipeline.New[[]int](srcOf(r, 20, false))
			p.NofBatches(10)
			q := fns[nm](p, func(seqNo int, d []int) []string { return nil })
			e := errors.New("q")
			q.Add(pipeline.Seq(pipeline.Receive(func(seqNo int, d []string) []string {
				if seqNo == 3 {
					q.SetErr(e)
				}
				return d
			})))
			q.Run()
			if p.Err() != e || q.Err() != e {
				failf("Err %v %v after SetErr behind the transform", p.Err(), q.Err())
			}
		})
		c.try("empty transform", func() {
			p := pipeline.New[[]int](srcOf(r, n, false))
			p.NofBatches(nb)
			cnt := int32(0)
			p.Add(pipeline.Par(pipeline.Receive(func(_ int, d []int) []int { atomic.AddInt32(&cnt, int32(len(d))); return d })))
			q := fns[nm](p, func(seqNo int, d []int) []string { return nil })
			q.Add(pipeline.Par(pipeline.Identity[[]string]))
			q.Run()
			if int(cnt) != n {
				failf("%d of %d elements seen before a transform without receivers", cnt, n)
			}
		})
	}
	runtime.GOMAXPROCS(max(4, runtime.NumCPU()))
}
