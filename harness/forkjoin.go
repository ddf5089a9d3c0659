package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/intel/forGoParallel/parallel"
	"github.com/intel/forGoParallel/speculative"
)

func init() {
	registry["C01"] = c01
	registry["C02"] = c02
	registry["C03"] = c03
	registry["C04"] = c04
	registry["C05"] = c05
	registry["C06"] = c06
	registry["C08"] = c08
	registry["C09"] = c09
	registry["C10"] = c10
}

func nap(r *rand.Rand, k int) time.Duration { return time.Duration(r.Intn(k+1)) * time.Microsecond }

// ---- variadic functions

// call runs one of the variadic fork-join functions on n leaves.
func callVariadic(fn string, n int, leaf func(i int)) {
	switch fn {
	case "Do":
		fs := make([]func(), n)
		for i := range fs {
			fs[i] = func() { leaf(i) }
		}
		parallel.Do(fs...)
	case "And", "Or":
		fs := make([]func() bool, n)
		for i := range fs {
			fs[i] = func() bool { leaf(i); return i%3 != 1 }
		}
		if fn == "And" {
			parallel.And(fs...)
		} else {
			parallel.Or(fs...)
		}
	case "ReduceSum", "ReduceProduct", "Reduce":
		fs := make([]func() int, n)
		for i := range fs {
			fs[i] = func() int { leaf(i); return i }
		}
		switch fn {
		case "ReduceSum":
			parallel.ReduceSum(fs...)
		case "ReduceProduct":
			parallel.ReduceProduct(fs...)
		default:
			if n > 0 {
				parallel.Reduce(func(x, y int) int { return x + y }, fs[0], fs[1:]...)
			}
		}
	}
}

var variadic = []string{"Do", "And", "Or", "ReduceSum", "ReduceProduct", "Reduce"}

func sizes(c *Ctx) []int {
	s := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 16, 17, 23, 31, 32, 33, 64, 100}
	for i := 0; i < 6; i++ {
		s = append(s, c.rng.Intn(200))
	}
	return s
}

func c01(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 40; round++ {
		for _, fn := range variadic {
			for _, n := range sizes(c) {
				if fn == "Reduce" && n == 0 {
					continue
				}
				slow := -1
				if n > 0 {
					slow = c.rng.Intn(n)
				}
				c.try(fmt.Sprintf("parallel.%s of %d functions, function %d slow", fn, n, slow), func() {
					cnt := make([]int32, n)
					fin := make([]int32, n)
					callVariadic(fn, n, func(i int) {
						atomic.AddInt32(&cnt[i], 1)
						if i == slow {
							time.Sleep(2 * time.Millisecond)
						}
						atomic.AddInt32(&fin[i], 1)
					})
					for i := range fin {
						if k := atomic.LoadInt32(&fin[i]); k != 1 {
							failf("function %d had finished %d times when the call returned", i, k)
						}
						if k := atomic.LoadInt32(&cnt[i]); k != 1 {
							failf("function %d was called %d times", i, k)
						}
					}
				})
				c.try(fmt.Sprintf("parallel.%s of %d functions that wait for each other", fn, n), func() {
					var wg sync.WaitGroup
					wg.Add(n)
					callVariadic(fn, n, func(i int) { wg.Done(); wg.Wait() })
				})
				if n > 1 {
					bad := c.rng.Intn(n)
					c.try(fmt.Sprintf("parallel.%s of %d functions, function %d panics", fn, n, bad), func() {
						cnt := make([]int32, n)
						catch(func() {
							callVariadic(fn, n, func(i int) {
								atomic.AddInt32(&cnt[i], 1)
								if i == bad {
									panic("x")
								}
							})
						})
						for w := 0; w < 2000; w++ {
							all := true
							for i := range cnt {
								if atomic.LoadInt32(&cnt[i]) == 0 {
									all = false
								}
							}
							if all {
								break
							}
							time.Sleep(time.Millisecond)
						}
						time.Sleep(time.Millisecond)
						for i := range cnt {
							if k := atomic.LoadInt32(&cnt[i]); k != 1 {
								failf("function %d was called %d times", i, k)
							}
						}
					})
				}
			}
			if round > 0 && !c.more() {
				return
			}
		}
	}
}

// values on which + and * are associative (bit for bit, NaN payloads aside)
var special = []float64{1, math.Copysign(0, -1), 0, 2, -1, math.Inf(1), -2, math.Inf(-1), math.NaN()}

func sameFloat(x, y float64) bool {
	return x == y && math.Signbit(x) == math.Signbit(y) || x != x && y != y
}

func c02(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 200; round++ {
		for _, n := range sizes(c) {
			r := rand.New(rand.NewSource(c.rng.Int63()))
			del := make([]time.Duration, n)
			for i := range del {
				if r.Intn(4) == 0 {
					del[i] = nap(r, 60)
				}
			}
			want := ""
			strs := make([]func() string, n)
			for i := range strs {
				s := fmt.Sprintf("%d.", i)
				want += s
				strs[i] = func() string { time.Sleep(del[i]); return s }
			}
			c.try(fmt.Sprintf("ReduceSum over %d strings", n), func() {
				if got := parallel.ReduceSum(strs...); got != want {
					failf("got %q, want %q", got, want)
				}
			})
			if n > 0 {
				c.try(fmt.Sprintf("Reduce over %d strings with concatenation", n), func() {
					if got := parallel.Reduce(func(x, y string) string { return x + y }, strs[0], strs[1:]...); got != want {
						failf("got %q, want %q", got, want)
					}
				})
			}
			prod := 1
			ints := make([]func() int, n)
			for i := range ints {
				x := r.Intn(7) + 1 - 2*r.Intn(2)
				prod *= x
				ints[i] = func() int { time.Sleep(del[i]); return x }
			}
			fls := make([]func() float64, n)
			fprod, fsum := 1.0, 0.0
			vals := make([]float64, n)
			for i := range fls {
				x := special[r.Intn(1+r.Intn(len(special)))]
				vals[i] = x
				if i == 0 {
					fprod, fsum = x, x
				} else {
					fprod *= x
					fsum += x
				}
				fls[i] = func() float64 { time.Sleep(del[i]); return x }
			}
			c.try(fmt.Sprintf("ReduceProduct and ReduceSum over %v", vals), func() {
				if got := parallel.ReduceProduct(fls...); !sameFloat(got, fprod) {
					failf("product: got %v, want %v", got, fprod)
				}
				if got := parallel.ReduceSum(fls...); !sameFloat(got, fsum) {
					failf("sum: got %v, want %v", got, fsum)
				}
			})
			c.try(fmt.Sprintf("ReduceProduct over %d numbers", n), func() {
				if got := parallel.ReduceProduct(ints...); got != prod {
					failf("got %d, want %d", got, prod)
				}
			})
			for k := -2; k < n; k++ {
				and, or := true, false
				bs := make([]func() bool, n)
				cs := make([]func() bool, n)
				for i := range bs {
					b := k == -2 || i != k
					if k == -1 {
						b = r.Intn(2) == 0
					}
					and = and && b
					or = or || !b
					bs[i] = func() bool { time.Sleep(del[i]); return b }
					cs[i] = func() bool { return !b }
				}
				c.try(fmt.Sprintf("And over %d predicates (pattern %d)", n, k), func() {
					if got := parallel.And(bs...); got != and {
						failf("got %v, want %v", got, and)
					}
				})
				c.try(fmt.Sprintf("Or over %d predicates (pattern %d)", n, k), func() {
					if got := parallel.Or(cs...); got != or {
						failf("got %v, want %v", got, or)
					}
				})
			}
		}
	}
}

// ---- range functions

type batch struct{ lo, hi int }

var ranges = []string{"Range", "RangeAnd", "RangeOr", "RangeReduce", "RangeReduceSum", "RangeReduceProduct"}

func callRange(fn string, low, high, n int, f func(lo, hi int)) {
	switch fn {
	case "Range":
		parallel.Range(low, high, n, f)
	case "RangeAnd":
		parallel.RangeAnd(low, high, n, func(a, b int) bool { f(a, b); return a%2 == 0 })
	case "RangeOr":
		parallel.RangeOr(low, high, n, func(a, b int) bool { f(a, b); return a%2 == 0 })
	case "RangeReduce":
		parallel.RangeReduce(low, high, n, func(a, b int) int { f(a, b); return a }, func(x, y int) int { return x + y })
	case "RangeReduceSum":
		parallel.RangeReduceSum(low, high, n, func(a, b int) int { f(a, b); return a })
	case "RangeReduceProduct":
		parallel.RangeReduceProduct(low, high, n, func(a, b int) int { f(a, b); return a })
	}
}

func rangeGrid(c *Ctx, full bool, f func(low, high, n int)) {
	lows := []int{0, 1, 7, 1000, math.MaxInt - 70, -5}
	for _, low := range lows {
		for size := 0; size <= 40; size++ {
			for n := 0; n <= 41; n++ {
				if !full && c.rng.Intn(8) != 0 {
					continue
				}
				f(low, low+size, n)
			}
		}
	}
	for size := 0; size <= 60; size++ {
		for _, n := range []int{2, 3, 5, size - 1, size, size + 1, 2 * size} {
			if n >= 0 {
				f(math.MaxInt-size, math.MaxInt, n)
			}
		}
	}
	for i := 0; i < 300; i++ {
		size := c.rng.Intn(3000)
		f(c.rng.Intn(1000), 1000+size, c.rng.Intn(size+10))
	}
	for _, sz := range []int{1 << 40, math.MaxInt} {
		for _, n := range []int{0, 1, 2, 7, 100} {
			f(0, sz, n)
		}
	}
}

func c03(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 10; round++ {
		for _, fn := range ranges {
			rangeGrid(c, fn == "Range" || round > 0, func(low, high, n int) {
				if round > 0 && !c.more() {
					return
				}
				c.try(fmt.Sprintf("parallel.%s(%d, %d, %d)", fn, low, high, n), func() {
					var mu sync.Mutex
					var bs []batch
					var fin int32
					callRange(fn, low, high, n, func(a, b int) {
						mu.Lock()
						bs = append(bs, batch{a, b})
						mu.Unlock()
						if (a-low)%5 == 4 {
							time.Sleep(20 * time.Microsecond)
						}
						atomic.AddInt32(&fin, 1)
					})
					k := int(atomic.LoadInt32(&fin))
					mu.Lock()
					defer mu.Unlock()
					if k != len(bs) {
						failf("%d of %d batches had finished when the call returned", k, len(bs))
					}
					checkCover(low, high, n, bs)
				})
			})
		}
	}
}

func checkCover(low, high, n int, bs []batch) {
	byLo := map[int]batch{}
	for _, b := range bs {
		if b.lo < low || b.hi > high || b.lo > b.hi || b.lo == b.hi && low != high {
			failf("batch [%d,%d) is empty or not inside the range; batches %v", b.lo, b.hi, bs)
		}
		if _, dup := byLo[b.lo]; dup {
			failf("overlapping batches %v", bs)
		}
		byLo[b.lo] = b
	}
	at, k := low, 0
	for at < high {
		b, ok := byLo[at]
		if !ok {
			failf("batches do not cover the range exactly: nothing starts at %d in %v", at, bs)
		}
		at = b.hi
		k++
	}
	if low == high {
		k = 1
	}
	if k != len(bs) {
		failf("batches overlap: %v", bs)
	}
	if n > 0 && len(bs) > max(1, min(n, high-low)) {
		failf("%d batches for n = %d", len(bs), n)
	}
	if n > 0 && (high-low)%n == 0 && high > low {
		if len(bs) != n {
			failf("%d batches for n = %d although n divides the size: %v", len(bs), n, bs)
		}
	}
	if n > 0 && low < high && len(bs) > 0 && (high-low)%n == 0 {
		for _, b := range bs {
			if b.hi-b.lo != (high-low)/n {
				failf("unequal batches %v for n = %d", bs, n)
			}
		}
	}
}

func c04(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 20; round++ {
		rangeGrid(c, true, func(low, high, n int) {
			if round > 0 && !c.more() || high-low > 5000 {
				return
			}
			name := func(a, b int) string {
				s := ""
				for i := a; i < b; i++ {
					s += fmt.Sprint(i, ".")
				}
				return s
			}
			bad := low
			if high > low {
				bad = low + c.rng.Intn(high-low)
			}
			mode := c.rng.Intn(3)
			c.try(fmt.Sprintf("range reductions over [%d,%d), n = %d (element %d, mode %d)", low, high, n, bad, mode), func() {
				want := name(low, high)
				if got := parallel.RangeReduceSum(low, high, n, name); got != want {
					failf("RangeReduceSum: got %q, want %q", got, want)
				}
				if got := parallel.RangeReduce(low, high, n, name, func(x, y string) string { return x + y }); got != want {
					failf("RangeReduce: got %q, want %q", got, want)
				}
				if high > low && high-low < 500 && low >= 0 && low < 1<<20 {
					fold := func(op func(x, y float64) float64) func(a, b int) float64 {
						return func(a, b int) float64 {
							x := special[(a*7+bad)%len(special)]
							for i := a + 1; i < b; i++ {
								x = op(x, special[(i*7+bad)%len(special)])
							}
							return x
						}
					}
					fp := fold(func(x, y float64) float64 { return x * y })
					fs := fold(func(x, y float64) float64 { return x + y })
					if got := parallel.RangeReduceProduct(low, high, n, fp); !sameFloat(got, fp(low, high)) {
						failf("RangeReduceProduct over floats: got %v, want %v", got, fp(low, high))
					}
					if got := parallel.RangeReduceSum(low, high, n, fs); !sameFloat(got, fs(low, high)) {
						failf("RangeReduceSum over floats: got %v, want %v", got, fs(low, high))
					}
				}
				val := func(i int) uint64 { return uint64(i)*2 + 3 }
				prod := func(a, b int) uint64 {
					p := uint64(1)
					for i := a; i < b; i++ {
						p *= val(i)
					}
					return p
				}
				if got := parallel.RangeReduceProduct(low, high, n, prod); got != prod(low, high) {
					failf("RangeReduceProduct: got %d, want %d", got, prod(low, high))
				}
				has := func(a, b int) bool { return mode == 0 && a <= bad && bad < b || mode == 1 && b > a }
				if got := parallel.RangeOr(low, high, n, has); got != has(low, high) {
					failf("RangeOr: got %v, want %v", got, has(low, high))
				}
				if got := parallel.RangeAnd(low, high, n, func(a, b int) bool { return !has(a, b) }); got == has(low, high) {
					failf("RangeAnd: got %v, want %v", got, !has(low, high))
				}
			})
		})
	}
}

// ---- panics

var errSentinel = errors.New("sentinel error")

type leafErr struct{ i int }

func (e *leafErr) Error() string { return fmt.Sprintf("leaf error <%d>", e.i) }

// checkPanic: p must carry the panic of leaf i.
func checkPanic(p any, panicked bool, i int, asErr bool) {
	if !panicked {
		failf("no panic although function %d panics", i)
	}
	if asErr {
		e, ok := p.(error)
		if !ok {
			failf("the panic value is %T, not an error: %.80v", p, p)
		}
		var le *leafErr
		if !errors.As(e, &le) {
			failf("the original error cannot be unwrapped from %.80v", p)
		}
		if le.i != i {
			failf("panic of function %d propagated, the left-most is %d", le.i, i)
		}
		return
	}
	if _, ok := p.(error); ok {
		failf("the panic value is an error: %.80v", p)
	}
	if !strings.Contains(fmt.Sprint(p), fmt.Sprintf("<%d>", i)) {
		failf("the panic value of function %d is not part of %.120v", i, p)
	}
	s := fmt.Sprint(p)
	if k := strings.Index(s, "<"); s[k:k+len(fmt.Sprintf("<%d>", i))] != fmt.Sprintf("<%d>", i) {
		failf("propagated %.80v, the left-most panic is %d", p, i)
	}
}

func c05(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 60; round++ {
		for _, fn := range variadic {
			for n := 1; n <= 18; n++ {
				if fn == "Reduce" && n == 0 {
					continue
				}
				bad := map[int]bool{c.rng.Intn(n): true}
				if c.rng.Intn(3) > 0 {
					bad[c.rng.Intn(n)] = true
				}
				if c.rng.Intn(4) == 0 {
					for i := range n {
						bad[i] = c.rng.Intn(2) == 0
					}
				}
				first := -1
				for i := n - 1; i >= 0; i-- {
					if bad[i] {
						first = i
					}
				}
				asErr := c.rng.Intn(2) == 0
				late := c.rng.Intn(2) == 0
				c.try(fmt.Sprintf("parallel.%s of %d functions, panicking: %v, errors: %v", fn, n, bad, asErr), func() {
					p, ok := catch(func() {
						callVariadic(fn, n, func(i int) {
							if bad[i] {
								if i == first && late {
									time.Sleep(300 * time.Microsecond)
								}
								if asErr {
									panic(&leafErr{i})
								}
								panic(fmt.Sprintf("leaf <%d>", i))
							}
						})
					})
					if first >= 0 {
						checkPanic(p, ok, first, asErr)
					} else if ok {
						failf("unexpected panic %v", p)
					}
				})
			}
		}
		for _, fn := range ranges {
			for size := 1; size <= 18; size++ {
				n := c.rng.Intn(size + 2)
				x, y := c.rng.Intn(size), c.rng.Intn(size)
				asErr := c.rng.Intn(2) == 0
				late := c.rng.Intn(2) == 0
				c.try(fmt.Sprintf("parallel.%s(0, %d, %d), batches with %d and %d panic, errors: %v", fn, size, n, x, y, asErr), func() {
					var mu sync.Mutex
					first := -1
					p, ok := catch(func() {
						callRange(fn, 0, size, n, func(a, b int) {
							if a <= x && x < b || a <= y && y < b {
								mu.Lock()
								if first < 0 || a < first {
									first = a
								}
								mu.Unlock()
								if late && a <= min(x, y) {
									time.Sleep(300 * time.Microsecond)
								}
								if asErr {
									panic(&leafErr{a})
								}
								panic(fmt.Sprintf("leaf <%d>", a))
							}
						})
					})
					mu.Lock()
					defer mu.Unlock()
					checkPanic(p, ok, first, asErr)
				})
			}
		}
		if round > 0 && !c.more() {
			return
		}
	}
}

func c06(c *Ctx) {
	srange := map[string]func(low, high, n int, f func()){
		"Range":    func(l, h, n int, f func()) { speculative.Range(l, h, n, func(a, b int) bool { f(); return false }) },
		"RangeAnd": func(l, h, n int, f func()) { speculative.RangeAnd(l, h, n, func(a, b int) bool { f(); return true }) },
		"RangeOr":  func(l, h, n int, f func()) { speculative.RangeOr(l, h, n, func(a, b int) bool { f(); return false }) },
		"RangeReduce": func(l, h, n int, f func()) {
			speculative.RangeReduce(l, h, n, func(a, b int) (int, bool) { f(); return 0, false }, func(x, y int) (int, bool) { return x, false })
		},
	}
	type arg struct{ l, h, n int }
	var as []arg
	for _, l := range []int{0, 1, 2, 5, 10, 1 << 40, math.MaxInt, -3} {
		for _, h := range []int{0, 1, 2, 4, 5, 9, 10, 1 << 40, math.MaxInt, -3, -4} {
			for _, n := range []int{0, 1, 2, 5, -1, -2, -100, math.MinInt} {
				if l <= h && n >= 0 {
					continue
				}
				if l <= h && l < 0 && h-l < 0 {
					continue
				}
				as = append(as, arg{l, h, n})
			}
		}
	}
	for _, a := range as {
		for _, fn := range ranges {
			c.try(fmt.Sprintf("parallel.%s(%d, %d, %d)", fn, a.l, a.h, a.n), func() {
				var called int32
				_, ok := catch(func() { callRange(fn, a.l, a.h, a.n, func(x, y int) { atomic.AddInt32(&called, 1) }) })
				if !ok {
					failf("invalid arguments are accepted")
				}
				if k := atomic.LoadInt32(&called); k > 0 {
					failf("the function was called %d times", k)
				}
			})
		}
		for fn, f := range srange {
			c.try(fmt.Sprintf("speculative.%s(%d, %d, %d)", fn, a.l, a.h, a.n), func() {
				var called int32
				_, ok := catch(func() { f(a.l, a.h, a.n, func() { atomic.AddInt32(&called, 1) }) })
				if !ok {
					failf("invalid arguments are accepted")
				}
				if k := atomic.LoadInt32(&called); k > 0 {
					failf("the function was called %d times", k)
				}
			})
		}
	}
}

// ---- speculative

// spec runs one of the speculative functions on n leaves. leaf returns
// whether the leaf decides. The result is the decision and the index found.
func callSpec(fn string, n int, leaf func(i int) bool, joinDec func(x, y []int) bool) (decided bool, val []int) {
	switch fn {
	case "Do", "Or", "And":
		fs := make([]func() bool, n)
		for i := range fs {
			fs[i] = func() bool { return leaf(i) != (fn == "And") }
		}
		switch fn {
		case "Do":
			return speculative.Do(fs...), nil
		case "Or":
			return speculative.Or(fs...), nil
		default:
			return !speculative.And(fs...), nil
		}
	case "Reduce":
		fs := make([]func() ([]int, bool), n)
		for i := range fs {
			fs[i] = func() ([]int, bool) { d := leaf(i); return []int{i}, d }
		}
		v, d := speculative.Reduce(func(x, y []int) ([]int, bool) {
			z := append(append([]int{}, x...), y...)
			return z, joinDec(x, y)
		}, fs[0], fs[1:]...)
		return d, v
	case "Range", "RangeOr":
		f := func(a, b int) bool { return leafRange(a, b, leaf) }
		if fn == "Range" {
			return speculative.Range(0, n, n, f), nil
		}
		return speculative.RangeOr(0, n, n, f), nil
	case "RangeAnd":
		return !speculative.RangeAnd(0, n, n, func(a, b int) bool { return !leafRange(a, b, leaf) }), nil
	case "RangeReduce":
		v, d := speculative.RangeReduce(0, n, n, func(a, b int) ([]int, bool) {
			var z []int
			for i := a; i < b; i++ {
				z = append(z, i)
				if leaf(i) {
					return []int{i}, true
				}
			}
			return z, false
		}, func(x, y []int) ([]int, bool) {
			z := append(append([]int{}, x...), y...)
			return z, joinDec(x, y)
		})
		return d, v
	}
	return
}

func leafRange(a, b int, leaf func(i int) bool) bool {
	for i := a; i < b; i++ {
		if leaf(i) {
			return true
		}
	}
	return false
}

var specs = []string{"Do", "And", "Or", "Reduce", "Range", "RangeAnd", "RangeOr", "RangeReduce"}

func noJoin(x, y []int) bool { return false }

func c08(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 200; round++ {
		for _, fn := range specs {
			for n := 0; n <= 24; n++ {
				if fn == "Reduce" && n == 0 {
					continue
				}
				for mode := 0; mode < 4; mode++ {
					dec := make([]bool, n)
					first := -1
					switch mode {
					case 1:
						if n > 0 {
							dec[c.rng.Intn(n)] = true
						}
					case 2:
						for i := range dec {
							dec[i] = c.rng.Intn(3) == 0
						}
					case 3:
						for i := range dec {
							dec[i] = true
						}
					}
					for i := n - 1; i >= 0; i-- {
						if dec[i] {
							first = i
						}
					}
					slow := c.rng.Intn(n + 1)
					jd := -1
					if mode == 0 && n > 1 && c.rng.Intn(2) == 0 {
						jd = c.rng.Intn(n-1) + 1 // the join of [..jd) and [jd..] decides
					}
					if jd >= 0 && fn != "Reduce" && fn != "RangeReduce" {
						jd = -1
					}
					c.try(fmt.Sprintf("speculative.%s over %d leaves, deciding %v, slow %d, deciding join at %d", fn, n, dec, slow, jd), func() {
						d, v := callSpec(fn, n, func(i int) bool {
							if i == slow || i == first && c.seed%2 == 0 {
								time.Sleep(100 * time.Microsecond)
							}
							return dec[i]
						}, func(x, y []int) bool { return jd >= 0 && y[0] == jd })
						if first >= 0 != d && jd < 0 {
							failf("decided: %v, want %v", d, first >= 0)
						}
						if fn == "Reduce" || fn == "RangeReduce" {
							if first >= 0 && (len(v) != 1 || v[0] != first) {
								failf("result %v, want the left-most deciding leaf %d", v, first)
							}
							if first < 0 && jd < 0 {
								for i := range n {
									if len(v) != n || v[i] != i {
										failf("combined result %v of %d leaves", v, n)
									}
								}
							}
							if first < 0 && jd >= 0 && d {
								ok := false
								for i := 1; i < len(v); i++ {
									if v[i] == jd {
										ok = true
									}
								}
								for i := 1; i < len(v); i++ {
									if v[i] != v[i-1]+1 {
										ok = false
									}
								}
								if !ok {
									failf("deciding join at %d, result %v", jd, v)
								}
							}
						}
					})
				}
			}
			if round > 0 && !c.more() {
				return
			}
		}
	}
}

func c09(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 50; round++ {
		for _, fn := range specs {
			for n := 1; n <= 20; n++ {
				// every leaf exactly once, all finished when nothing decides
				slow := c.rng.Intn(n)
				c.try(fmt.Sprintf("speculative.%s over %d leaves, none deciding, leaf %d slow", fn, n, slow), func() {
					cnt := make([]int32, n)
					fin := make([]int32, n)
					callSpec(fn, n, func(i int) bool {
						atomic.AddInt32(&cnt[i], 1)
						if i == slow {
							time.Sleep(time.Millisecond)
						}
						atomic.AddInt32(&fin[i], 1)
						return false
					}, noJoin)
					for i := range cnt {
						if atomic.LoadInt32(&fin[i]) != 1 || atomic.LoadInt32(&cnt[i]) != 1 {
							failf("leaf %d was called %d times and had finished %d times at the return", i, atomic.LoadInt32(&cnt[i]), atomic.LoadInt32(&fin[i]))
						}
					}
				})
				c.try(fmt.Sprintf("speculative.%s over %d leaves that wait for each other", fn, n), func() {
					var wg sync.WaitGroup
					wg.Add(n)
					callSpec(fn, n, func(i int) bool { wg.Done(); wg.Wait(); return false }, noJoin)
				})
				// returns although everything right of the deciding leaf is stuck
				d := c.rng.Intn(n)
				c.try(fmt.Sprintf("speculative.%s over %d leaves, leaf %d decides, leaves to its right never finish", fn, n, d), func() {
					stuck := make(chan struct{})
					defer close(stuck)
					fin := make([]int32, n)
					dec, _ := callSpec(fn, n, func(i int) bool {
						if i > d {
							<-stuck
						}
						if i < d {
							time.Sleep(50 * time.Microsecond)
						}
						atomic.AddInt32(&fin[i], 1)
						return i == d
					}, noJoin)
					if !dec {
						failf("not decided")
					}
					for i := 0; i <= d; i++ {
						if atomic.LoadInt32(&fin[i]) != 1 {
							failf("leaf %d had finished %d times at the return", i, atomic.LoadInt32(&fin[i]))
						}
					}
				})
				c.try(fmt.Sprintf("speculative.%s over %d leaves, leaf %d decides, call counts", fn, n, d), func() {
					cnt := make([]int32, n)
					callSpec(fn, n, func(i int) bool { atomic.AddInt32(&cnt[i], 1); return i == d }, noJoin)
					time.Sleep(200 * time.Microsecond)
					for i := range cnt {
						if k := atomic.LoadInt32(&cnt[i]); k > 1 {
							failf("leaf %d called %d times", i, k)
						}
					}
				})
			}
			if round > 0 && !c.more() {
				return
			}
		}
		for size := 0; size <= 30; size++ {
			for n := 0; n <= 31; n++ {
				for _, fn := range []string{"Range", "RangeAnd", "RangeOr", "RangeReduce"} {
					c.try(fmt.Sprintf("speculative.%s(3, %d, %d) batches", fn, 3+size, n), func() {
						var mu sync.Mutex
						var bs []batch
						f := func(a, b int) { mu.Lock(); bs = append(bs, batch{a, b}); mu.Unlock() }
						switch fn {
						case "Range":
							speculative.Range(3, 3+size, n, func(a, b int) bool { f(a, b); return false })
						case "RangeAnd":
							speculative.RangeAnd(3, 3+size, n, func(a, b int) bool { f(a, b); return true })
						case "RangeOr":
							speculative.RangeOr(3, 3+size, n, func(a, b int) bool { f(a, b); return false })
						default:
							speculative.RangeReduce(3, 3+size, n, func(a, b int) (int, bool) { f(a, b); return 0, false }, func(x, y int) (int, bool) { return 0, false })
						}
						mu.Lock()
						defer mu.Unlock()
						checkCover(3, 3+size, n, bs)
					})
				}
			}
		}
	}
}

func c10(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 100; round++ {
		for _, fn := range specs {
			for n := 1; n <= 18; n++ {
				ev := make([]int, n) // 0 nothing, 1 decides, 2 panics
				for i := range ev {
					if c.rng.Intn(3) == 0 {
						ev[i] = 1 + c.rng.Intn(2)
					}
				}
				ev[c.rng.Intn(n)] = 2
				first := 0
				for ev[first] == 0 {
					first++
				}
				asErr := c.rng.Intn(2) == 0
				late := c.rng.Intn(2) == 0
				c.try(fmt.Sprintf("speculative.%s, events %v (1 decides, 2 panics), errors: %v", fn, ev, asErr), func() {
					var d bool
					p, ok := catch(func() {
						d, _ = callSpec(fn, n, func(i int) bool {
							if i == first && late {
								time.Sleep(200 * time.Microsecond)
							}
							if ev[i] == 2 {
								if asErr {
									panic(&leafErr{i})
								}
								panic(fmt.Sprintf("leaf <%d>", i))
							}
							return ev[i] == 1
						}, noJoin)
					})
					if ev[first] == 2 {
						checkPanic(p, ok, first, asErr)
					} else if ok {
						failf("panic %.60v although leaf %d decided first", p, first)
					} else if !d {
						failf("not decided although leaf %d decides", first)
					}
				})
				time.Sleep(20 * time.Microsecond)
			}
			if round > 0 && !c.more() {
				return
			}
		}
	}
}
