package main

import (
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/intel/forGoParallel/gsync"
	"github.com/intel/forGoParallel/parallel"
	"github.com/intel/forGoParallel/psort"
)

func init() {
	registry["C07"] = c07
	registry["C11"] = c11
	registry["C12"] = c12
	registry["C13"] = c13
	registry["C14"] = c14
	registry["C15"] = c15
	registry["C28"] = c28
	registry["C29"] = c29
}

func c07(c *Ctx) {
	c.try("the rounding that the proof assumes", func() {
		for k := 0; k <= 40; k++ {
			if k > 0 && int(math.Exp2(float64(k))) != 1<<k {
				failf("Exp2(%d) is %v", k, math.Exp2(float64(k)))
			}
			for _, n := range []int{1<<k - 1, 1 << k, 1<<k + 1} {
				if n < 1 || n > 1<<40 {
					continue
				}
				if got, want := int(math.Ceil(math.Log2(float64(n)))), bits.Len(uint(n-1)); got != want {
					failf("Ceil(Log2(%d)) is %d", n, got)
				}
			}
		}
	})
	for round := 0; round == 0 || c.more() && round < 50; round++ {
		var ns []int
		for n := 0; n <= 70; n++ {
			ns = append(ns, n)
		}
		for k := 7; k < 15; k++ {
			ns = append(ns, 1<<k-1, 1<<k, 1<<k+1, c.rng.Intn(1<<k))
		}
		for _, n := range ns {
			c.try(fmt.Sprintf("PrefixSum of %d ints", n), func() {
				s := make([]int, n)
				for i := range s {
					s[i] = c.rng.Intn(1000) - 500
				}
				want := make([]int, n)
				acc := 0
				for i, x := range s {
					acc += x
					want[i] = acc
				}
				got := parallel.PrefixSum(s)
				if len(got) != n {
					failf("the result has %d elements", len(got))
				}
				for i := range got {
					if got[i] != want[i] {
						failf("element %d is %d, expected %d", i, got[i], want[i])
					}
				}
			})
			if n < 3000 {
				c.try(fmt.Sprintf("PrefixSum of %d strings", n), func() {
					s := make([]string, n)
					for i := range s {
						s[i] = string(rune('a' + i%26))
					}
					want := make([]string, n)
					acc := ""
					for i, x := range s {
						acc += x
						want[i] = acc
					}
					got := parallel.PrefixSum(s)
					for i := range got {
						if got[i] != want[i] {
							failf("element %d is %.40q, expected %.40q", i, got[i], want[i])
						}
					}
				})
			}
		}
	}
}

// box is a collection of keyed elements that records what is done to it.
type item struct{ key, id int }
type box struct {
	s        []item
	less     func(a, b item) bool
	inUse    *atomic.Int64 // operations in progress
	after    *atomic.Int64 // operations after the sort returned
	returned *atomic.Bool
	bad      *atomic.Value
	n        int
}

func (b *box) enter() {
	if b.returned.Load() {
		b.after.Add(1)
	}
}
func (b *box) chk(i int) {
	if i < 0 || i >= len(b.s) {
		b.bad.CompareAndSwap(nil, fmt.Sprintf("index %d of a collection of %d elements was used", i, len(b.s)))
		runtime.Goexit()
	}
}
func (b *box) Len() int { return len(b.s) }
func (b *box) Less(i, j int) bool {
	b.enter()
	if i < 0 || i >= len(b.s) || j < 0 || j >= len(b.s) {
		panic(check{fmt.Sprintf("Less(%d, %d) on a collection of %d elements", i, j, len(b.s))})
	}
	return b.less(b.s[i], b.s[j])
}
func (b *box) Swap(i, j int) {
	b.enter()
	if i < 0 || i >= len(b.s) || j < 0 || j >= len(b.s) {
		panic(check{fmt.Sprintf("Swap(%d, %d) on a collection of %d elements", i, j, len(b.s))})
	}
	b.s[i], b.s[j] = b.s[j], b.s[i]
}
func (b *box) SequentialSort(i, j int) {
	b.enter()
	if i < 0 || j < i || j > len(b.s) {
		panic(check{fmt.Sprintf("SequentialSort(%d, %d) on a collection of %d elements", i, j, len(b.s))})
	}
	x := b.s[i:j]
	sort.SliceStable(x, func(p, q int) bool { return b.less(x[p], x[q]) })
}
func (b *box) NewTemp() psort.StableSorter {
	c := *b
	c.s = make([]item, len(b.s))
	return &c
}
func (b *box) Assign(src psort.StableSorter) func(i, j, n int) {
	o := src.(*box)
	return func(i, j, n int) {
		b.enter()
		if n < 0 || i < 0 || j < 0 || i+n > len(b.s) || j+n > len(o.s) {
			panic(check{fmt.Sprintf("Assign(%d, %d, %d) on collections of %d and %d elements", i, j, n, len(b.s), len(o.s))})
		}
		copy(b.s[i:i+n], o.s[j:j+n])
	}
}

func newBox(keys []int) *box {
	b := &box{less: func(a, b item) bool { return a.key < b.key }, inUse: new(atomic.Int64), after: new(atomic.Int64), returned: new(atomic.Bool), bad: new(atomic.Value)}
	for i, k := range keys {
		b.s = append(b.s, item{k, i})
	}
	return b
}

func genKeys(r *rand.Rand, n int, shape int) []int {
	k := make([]int, n)
	for i := range k {
		switch shape {
		case 0:
			k[i] = r.Intn(1 << 30)
		case 1:
			k[i] = r.Intn(5)
		case 2:
			k[i] = i
		case 3:
			k[i] = n - i
		case 4:
			k[i] = 7
		case 5:
			k[i] = i % 100
		case 6:
			k[i] = min(i, n-i)
		case 7:
			k[i] = i
			if r.Intn(50) == 0 {
				k[i] = r.Intn(n)
			}
		case 9, 10: // extreme elements where a median of nine would look
			k[i] = r.Intn(n + 1)
		case 11, 12: // blocks of different (or touching) ranges, in some order
		case 13: // descending, with some exceptions
			k[i] = n - i
			if r.Intn(700) == 0 {
				k[i] = r.Intn(n)
			}
		case 14: // two interleaved runs that share their keys
			k[i] = i % (n/2 + 1) / 3
		default:
			k[i] = r.Intn(2)
		}
	}
	if (shape == 9 || shape == 10) && n >= 16 {
		for p := 0; p < 9; p++ {
			at := min(p*(n/8), n-1)
			if p == 8 {
				at = n - 1
			}
			if r.Intn(4) > 0 {
				k[at] = n + 10 + r.Intn(9)
				if shape == 10 {
					k[at] = -1 - r.Intn(9)
				}
			}
		}
	}
	if shape == 11 || shape == 12 {
		nb := 2 << r.Intn(4)
		perm := r.Perm(nb)
		if r.Intn(2) == 0 {
			for i := range perm {
				perm[i] = i
			}
		} else if r.Intn(2) == 0 {
			for i := range perm {
				perm[i] = nb - 1 - i
			}
		}
		width := 1000
		if shape == 12 {
			width = 2
		}
		for i := range k {
			k[i] = perm[i*nb/n]*width + r.Intn(width+r.Intn(2))
		}
	}
	if shape == 2 && n > 1 && r.Intn(2) == 0 {
		i := r.Intn(n - 1)
		k[i], k[i+1] = k[i+1], k[i]
	}
	return k
}

var sortSizes = []int{0, 1, 2, 3, 10, 11, 0x4ff, 0x500, 0x501, 0x502, 1289, 1290, 1291, 2560, 2561, 4000, 0x2fff, 0x3000, 0x3001, 0x3002, 0x3003, 0x3005, 20000, 49151, 49152, 49153, 60000}

func checkSorted(b *box, n int, stable bool) {
	seen := make([]bool, n)
	if len(b.s) != n {
		failf("the collection has %d elements", len(b.s))
	}
	for i, x := range b.s {
		if x.id < 0 || x.id >= n || seen[x.id] {
			failf("element %d occurs twice, another one is lost", x.id)
		}
		seen[x.id] = true
		if i > 0 {
			y := b.s[i-1]
			if y.key > x.key {
				failf("not sorted at %d", i)
			}
			if stable && y.key == x.key && y.id > x.id {
				failf("equal elements %d and %d changed their order", y.id, x.id)
			}
		}
	}
	if b.after.Load() > 0 {
		failf("the collection was used after the sort had returned")
	}
}

func runSort(c *Ctx, stable bool) {
	for round := 0; round == 0 || c.more() && round < 40; round++ {
		for _, n := range append(append([]int{}, sortSizes...), c.rng.Intn(30000), c.rng.Intn(100000)) {
			for shape := 0; shape < 16; shape++ {
				nm := "Sort"
				if stable {
					nm = "StableSort"
				}
				c.try(fmt.Sprintf("%s of %d elements, shape %d", nm, n, shape), func() {
					b := newBox(genKeys(c.rng, n, shape))
					if stable {
						psort.StableSort(b)
					} else {
						psort.Sort(b)
					}
					checkSorted(b, n, stable)
				})
				if round > 0 && !c.more() {
					return
				}
			}
		}
	}
}

// adversary orders the elements while they are being compared, so that pivots
// are extreme elements: an element gets its rank, at one end of the order,
// when it is compared with another one that has none yet.
type adversary struct {
	mu      sync.Mutex
	rank    []int // 0: none yet
	lo, hi  int
	side    int // 0: smallest, 1: largest, 2: either
	last    int
	compare int
}

func (a *adversary) less(x, y item) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.rank[x.id] == 0 && a.rank[y.id] == 0 && x.id != y.id {
		f := x.id
		if a.last == y.id {
			f = y.id
		}
		a.compare++
		if a.side == 0 || a.side == 2 && a.compare%3 == 0 {
			a.lo++
			a.rank[f] = a.lo
		} else {
			a.hi--
			a.rank[f] = a.hi
		}
	}
	if a.rank[x.id] == 0 {
		a.last = x.id
	} else if a.rank[y.id] == 0 {
		a.last = y.id
	}
	return a.key(x) < a.key(y)
}

func (a *adversary) key(x item) int {
	if a.rank[x.id] == 0 {
		return 0
	}
	return a.rank[x.id]
}

func runAdversary(c *Ctx, stable bool) {
	for _, n := range []int{0x500, 0x501, 0x50b, 2000, 3333, 6000} {
		for side := 0; side < 3; side++ {
			c.try(fmt.Sprintf("sorting %d elements in an order that makes the pivots extreme (%d)", n, side), func() {
				b := newBox(make([]int, n))
				// smallest: ranks from below start far below zero, from above far above it; no rank is in between
				a := &adversary{rank: make([]int, n), lo: -10 * n, hi: 10 * n, side: side}
				a.rank[1], a.rank[0] = -11*n, 11*n // not sorted
				b.less = a.less
				if stable {
					psort.StableSort(b)
				} else {
					psort.Sort(b)
				}
				for i := range b.s {
					b.s[i].key = a.key(b.s[i])
				}
				checkSorted(b, n, stable)
			})
		}
	}
}

func c11(c *Ctx) {
	runAdversary(c, false)
	runSort(c, false)
}
func c12(c *Ctx) { runSort(c, true) }

func c13(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 60; round++ {
		for _, n := range append(append([]int{}, sortSizes...), c.rng.Intn(30000)) {
			c.try(fmt.Sprintf("IsSorted of %d sorted elements", n), func() {
				keys := make([]int, n)
				v := 0
				for i := range keys {
					v += c.rng.Intn(3) / 2
					keys[i] = v
				}
				if !psort.IsSorted(newBox(keys)) || !psort.IntsAreSorted(keys) {
					failf("a sorted collection is reported as unsorted")
				}
				for i := range keys {
					keys[i] = 5
				}
				if !psort.IsSorted(newBox(keys)) {
					failf("a constant collection is reported as unsorted")
				}
			})
			if n < 2 {
				continue
			}
			var at []int
			for _, k := range []int{1, 2, 8, 9, 10, 11, 12, n - 1, n - 2, n / 2, n/2 + 1, n/2 + 5, n/2 + 6, 1024, 1023, 1025, c.rng.Intn(n), c.rng.Intn(n), c.rng.Intn(n), c.rng.Intn(n)} {
				if k > 0 && k < n {
					at = append(at, k)
				}
			}
			for _, k := range at {
				c.try(fmt.Sprintf("IsSorted of %d elements with the only descent at %d", n, k), func() {
					keys := make([]int, n)
					fs := make([]float64, n)
					for i := range keys {
						keys[i] = i
						if i >= k {
							keys[i] = i - 2 // keys[k] < keys[k-1]
						}
						fs[i] = float64(keys[i])
					}
					ss := make([]string, n)
					for i := range ss {
						ss[i] = fmt.Sprintf("%09d", keys[i]+2)
					}
					if psort.IsSorted(newBox(keys)) || psort.IntsAreSorted(keys) || psort.Float64sAreSorted(fs) || psort.StringsAreSorted(ss) {
						failf("an unsorted collection is reported as sorted")
					}
				})
			}
		}
	}
}

// c14 is meaningful with the race detector.
func c14(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 60; round++ {
		for r := 0; r < 8; r++ {
			c.try("Sort and StableSort of the adapters of the package", func() {
				n := 20000 + c.rng.Intn(30000)
				is, fs, ss := make(psort.IntSlice, n), make(psort.Float64Slice, n), make(psort.StringSlice, n)
				for i := range is {
					is[i] = c.rng.Intn(n)
					fs[i] = float64(is[i])
					ss[i] = string(rune('a'+is[i]%26)) + string(rune('a'+is[i]/26%26))
				}
				if r%2 == 0 {
					psort.Sort(is)
					psort.Sort(fs)
					psort.Sort(ss)
				} else {
					psort.StableSort(is)
					psort.StableSort(fs)
					psort.StableSort(ss)
				}
				if !psort.IntsAreSorted(is) || !psort.Float64sAreSorted(fs) || !psort.StringsAreSorted(ss) {
					failf("not sorted")
				}
			})
		}
		for _, n := range []int{0x501, 3000, 6000, 20000, 0x3001, 50000} {
			for shape := 0; shape < 16; shape++ {
				c.try(fmt.Sprintf("Sort, StableSort and IsSorted of %d elements, shape %d: what touches the collection when", n, shape), func() {
					keys := genKeys(c.rng, n, shape)
					for _, f := range []func(b *box){func(b *box) { psort.Sort(b) }, func(b *box) { psort.StableSort(b) }, func(b *box) { psort.IsSorted(b) }} {
						b := newBox(keys)
						base := b.less
						b.less = func(x, y item) bool {
							if (x.id+y.id)%97 == 0 {
								runtime.Gosched()
							}
							return base(x, y)
						}
						f(b)
						b.returned.Store(true)
						for i := range b.s {
							b.s[i] = item{0, i} // races with anything that still runs
						}
						time.Sleep(time.Duration(c.rng.Intn(300)) * time.Microsecond)
						if b.after.Load() > 0 {
							failf("the collection was used after the call had returned")
						}
					}
				})
			}
			if round > 0 && !c.more() {
				return
			}
		}
		c.try("an unsorted pair deep in the right half with slow left comparisons", func() {
			n := 40000
			keys := ints(n)
			keys[15], keys[14] = 0, 1000000
			b := newBox(keys)
			base := b.less
			var naps atomic.Int32
			b.less = func(x, y item) bool {
				if x.id > n/2 && x.id%500 == 0 && naps.Add(1) < 60 {
					time.Sleep(100 * time.Microsecond)
				}
				return base(x, y)
			}
			psort.Sort(b)
			b.returned.Store(true)
			time.Sleep(5 * time.Millisecond)
			if b.after.Load() > 0 {
				failf("the collection was used after Sort had returned")
			}
		})
	}
}

func c15(c *Ctx) {
	nan := math.NaN()
	vals := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), nan, -nan, 2.5, math.MaxFloat64, math.SmallestNonzeroFloat64}
	for round := 0; round == 0 || c.more() && round < 200; round++ {
		c.try("Float64Slice.Less is a strict weak order that agrees with SequentialSort", func() {
			s := psort.Float64Slice(vals)
			for i := range vals {
				if s.Less(i, i) {
					failf("Less(%v, %v)", vals[i], vals[i])
				}
				for j := range vals {
					if s.Less(i, j) && s.Less(j, i) {
						failf("Less holds both ways for %v and %v", vals[i], vals[j])
					}
					for k := range vals {
						if s.Less(i, j) && s.Less(j, k) && !s.Less(i, k) {
							failf("Less is not transitive on %v %v %v", vals[i], vals[j], vals[k])
						}
						if !s.Less(i, j) && !s.Less(j, i) && !s.Less(j, k) && !s.Less(k, j) && (s.Less(i, k) || s.Less(k, i)) {
							failf("incomparability is not transitive on %v %v %v", vals[i], vals[j], vals[k])
						}
					}
					if !math.IsNaN(vals[i]) && !math.IsNaN(vals[j]) && s.Less(i, j) != (vals[i] < vals[j]) {
						failf("Less(%v, %v) is %v", vals[i], vals[j], s.Less(i, j))
					}
				}
			}
			x := append(psort.Float64Slice{}, vals...)
			c.rng.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
			x.SequentialSort(0, len(x))
			if !psort.IsSorted(x) || !sort.IsSorted(x) {
				failf("SequentialSort gives %v, which is not sorted by Less", x)
			}
		})
		for _, n := range []int{13, 50, 2000, 0x3001} {
			c.try(fmt.Sprintf("stably sorting %d floats: zeros of both signs, different NaNs", n), func() {
				x := make(psort.Float64Slice, n)
				for i := range x {
					switch c.rng.Intn(4) {
					case 0:
						x[i] = 0
					case 1:
						x[i] = math.Copysign(0, -1)
					case 2:
						x[i] = math.Float64frombits(math.Float64bits(nan) ^ uint64(c.rng.Intn(2))<<63 ^ uint64(c.rng.Intn(4))<<1)
					default:
						x[i] = float64(c.rng.Intn(3) - 1)
					}
				}
				for _, whole := range []bool{true, false} {
					a, b := c.rng.Intn(n/2), n-c.rng.Intn(n/2)
					y, want := append(psort.Float64Slice{}, x...), append([]float64{}, x...)
					if whole {
						a, b = 0, n
					}
					sort.SliceStable(want[a:b], func(i, j int) bool {
						p, q := want[a:b][i], want[a:b][j]
						return p < q || p != p && q == q
					})
					if whole {
						psort.StableSort(y)
					} else {
						y.SequentialSort(a, b)
					}
					for i := range y {
						if math.Float64bits(y[i]) != math.Float64bits(want[i]) {
							failf("element %d is %v (%#x), expected %v (%#x)", i, y[i], math.Float64bits(y[i]), want[i], math.Float64bits(want[i]))
						}
					}
				}
			})
		}
		for _, n := range []int{5, 2000, 0x3001, 20000} {
			c.try(fmt.Sprintf("sorting %d floats with NaNs", n), func() {
				for _, st := range []bool{false, true} {
					x := make(psort.Float64Slice, n)
					cnt := 0
					for i := range x {
						x[i] = vals[c.rng.Intn(len(vals))]
						if c.rng.Intn(3) > 0 {
							x[i] = c.rng.NormFloat64()
						}
						if math.IsNaN(x[i]) {
							cnt++
						}
					}
					if st {
						psort.StableSort(x)
					} else {
						psort.Sort(x)
					}
					for i := 1; i < n; i++ {
						if x.Less(i, i-1) || x[i] < x[i-1] {
							failf("not sorted at %d: %v before %v", i, x[i-1], x[i])
						}
					}
					seenNum, k := false, 0
					for _, v := range x {
						if math.IsNaN(v) {
							k++
							if seenNum {
								failf("a NaN after a number")
							}
						} else {
							seenNum = true
						}
					}
					if k != cnt {
						failf("%d NaNs before, %d after", cnt, k)
					}
				}
			})
			c.try(fmt.Sprintf("sorting %d ints and strings", n), func() {
				for _, st := range []bool{false, true} {
					x := make(psort.IntSlice, n)
					y := make(psort.StringSlice, n)
					for i := range x {
						x[i] = c.rng.Intn(2*n) - n
						if c.rng.Intn(50) == 0 {
							x[i] = math.MinInt
						}
						if c.rng.Intn(50) == 0 {
							x[i] = math.MaxInt
						}
						y[i] = fmt.Sprint(x[i])
					}
					wx := append([]int{}, x...)
					wy := append([]string{}, y...)
					sort.Ints(wx)
					sort.Strings(wy)
					if st {
						psort.StableSort(x)
						psort.StableSort(y)
					} else {
						psort.Sort(x)
						psort.Sort(y)
					}
					for i := range x {
						if x[i] != wx[i] || y[i] != wy[i] {
							failf("element %d is %v %v, expected %v %v", i, x[i], y[i], wx[i], wy[i])
						}
					}
				}
			})
		}
		c.try("Len, Less, Swap, Assign, NewTemp, SequentialSort of the adapters", func() {
			n := 6 + c.rng.Intn(6)
			ai, af, as := make(psort.IntSlice, n), make(psort.Float64Slice, n), make(psort.StringSlice, n)
			for i := range ai {
				ai[i] = c.rng.Intn(5)
				af[i] = float64(c.rng.Intn(5))
				as[i] = fmt.Sprint(c.rng.Intn(5))
			}
			i, j := c.rng.Intn(n), c.rng.Intn(n)
			if ai.Len() != n || af.Len() != n || as.Len() != n {
				failf("Len")
			}
			if ai.Less(i, j) != (ai[i] < ai[j]) || af.Less(i, j) != (af[i] < af[j]) || as.Less(i, j) != (as[i] < as[j]) {
				failf("Less")
			}
			ci, cf, cs := append(psort.IntSlice{}, ai...), append(psort.Float64Slice{}, af...), append(psort.StringSlice{}, as...)
			ai.Swap(i, j)
			af.Swap(i, j)
			as.Swap(i, j)
			for k := range ai {
				o := k
				if k == i {
					o = j
				} else if k == j {
					o = i
				}
				if ai[k] != ci[o] || af[k] != cf[o] || as[k] != cs[o] {
					failf("Swap(%d, %d) at %d", i, j, k)
				}
			}
			ti, tf, ts := ai.NewTemp().(psort.IntSlice), af.NewTemp().(psort.Float64Slice), as.NewTemp().(psort.StringSlice)
			if len(ti) != n || len(tf) != n || len(ts) != n {
				failf("NewTemp")
			}
			a, b := c.rng.Intn(n), c.rng.Intn(n)
			l := c.rng.Intn(n - max(a, b) + 1)
			ti.Assign(ai)(a, b, l)
			tf.Assign(af)(a, b, l)
			ts.Assign(as)(a, b, l)
			for k := range ti {
				wi, wf, ws := 0, 0.0, ""
				if k >= a && k < a+l {
					wi, wf, ws = ai[b+k-a], af[b+k-a], as[b+k-a]
				}
				if ti[k] != wi || tf[k] != wf || ts[k] != ws {
					failf("Assign(%d, %d, %d) at %d", a, b, l, k)
				}
			}
			ci, cf, cs = append(psort.IntSlice{}, ai...), append(psort.Float64Slice{}, af...), append(psort.StringSlice{}, as...)
			sort.Ints(ci[b : b+l])
			sort.Float64s(cf[b : b+l])
			sort.Strings(cs[b : b+l])
			ai.SequentialSort(b, b+l)
			af.SequentialSort(b, b+l)
			as.SequentialSort(b, b+l)
			for k := range ai {
				if ai[k] != ci[k] || af[k] != cf[k] || as[k] != cs[k] {
					failf("SequentialSort(%d, %d) at %d", b, b+l, k)
				}
			}
		})
	}
}

// ---- gsync

type shape interface{ Area() int }
type sq int

func (s sq) Area() int { return int(s) }

func c28(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 200; round++ {
		seed := c.rng.Int63()
		c.try(fmt.Sprintf("random operations on a Map[int, int], seed %d", seed), func() {
			mapOps(rand.New(rand.NewSource(seed)), func(r *rand.Rand) int { return r.Intn(4) }, func(r *rand.Rand) int { return r.Intn(3) })
		})
		c.try(fmt.Sprintf("random operations on a Map[string, any] with nil values, seed %d", seed), func() {
			mapOps(rand.New(rand.NewSource(seed)), func(r *rand.Rand) string { return fmt.Sprint(r.Intn(4)) }, func(r *rand.Rand) any {
				switch r.Intn(3) {
				case 0:
					return nil
				case 1:
					return 1
				}
				return "x"
			})
		})
		c.try(fmt.Sprintf("random operations on a Map[any, shape] with nil keys and values, seed %d", seed), func() {
			mapOps(rand.New(rand.NewSource(seed)), func(r *rand.Rand) any {
				return []any{nil, 1, "a", sq(2)}[r.Intn(4)]
			}, func(r *rand.Rand) shape {
				return []shape{nil, sq(1), sq(2)}[r.Intn(3)]
			})
		})
		c.try(fmt.Sprintf("random operations on a Map[float64, error], seed %d", seed), func() {
			mapOps(rand.New(rand.NewSource(seed)), func(r *rand.Rand) float64 { return float64(r.Intn(3)) }, func(r *rand.Rand) error {
				return []error{nil, check2("a"), check2("b")}[r.Intn(3)]
			})
		})
		c.try("concurrent LoadOrStore", func() {
			var m gsync.Map[int, int]
			var wg sync.WaitGroup
			var wins atomic.Int32
			got := make([]int, 8)
			for i := range 8 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					v, loaded := m.LoadOrStore(1, i+1)
					got[i] = v
					if !loaded {
						wins.Add(1)
					}
				}()
			}
			wg.Wait()
			for i := range got {
				if got[i] != got[0] {
					failf("LoadOrStore returned different values %v", got)
				}
			}
			if wins.Load() != 1 {
				failf("%d LoadOrStore calls stored", wins.Load())
			}
		})
	}
}

type check2 string

func (c check2) Error() string { return string(c) }

func mapOps[K comparable, V any](r *rand.Rand, key func(*rand.Rand) K, val func(*rand.Rand) V) {
	var m gsync.Map[K, V]
	ref := map[K]V{}
	same := func(a, b V) bool { return any(a) == any(b) }
	log := ""
	for range 60 {
		k, v, v2 := key(r), val(r), val(r)
		old, had := ref[k]
		var zero V
		_ = zero
		switch op := r.Intn(9); op {
		case 0:
			log += fmt.Sprintf(" Store(%v,%v)", k, v)
			m.Store(k, v)
			ref[k] = v
		case 1:
			log += fmt.Sprintf(" Load(%v)", k)
			x, ok := m.Load(k)
			if ok != had || !same(x, old) {
				failf("%s: Load returned %v, %v; expected %v, %v", log, x, ok, old, had)
			}
		case 2:
			log += fmt.Sprintf(" LoadOrStore(%v,%v)", k, v)
			x, ok := m.LoadOrStore(k, v)
			w := v
			if had {
				w = old
			}
			if ok != had || !same(x, w) {
				failf("%s: LoadOrStore returned %v, %v; expected %v, %v", log, x, ok, w, had)
			}
			ref[k] = w
		case 3:
			log += fmt.Sprintf(" LoadAndDelete(%v)", k)
			x, ok := m.LoadAndDelete(k)
			if ok != had || !same(x, old) {
				failf("%s: LoadAndDelete returned %v, %v; expected %v, %v", log, x, ok, old, had)
			}
			delete(ref, k)
		case 4:
			log += fmt.Sprintf(" Delete(%v)", k)
			m.Delete(k)
			delete(ref, k)
		case 5:
			log += fmt.Sprintf(" Swap(%v,%v)", k, v)
			x, ok := m.Swap(k, v)
			if ok != had || !same(x, old) {
				failf("%s: Swap returned %v, %v; expected %v, %v", log, x, ok, old, had)
			}
			ref[k] = v
		case 6:
			log += fmt.Sprintf(" CompareAndSwap(%v,%v,%v)", k, v, v2)
			ok := m.CompareAndSwap(k, v, v2)
			if ok != (had && same(old, v)) {
				failf("%s: CompareAndSwap returned %v", log, ok)
			}
			if ok {
				ref[k] = v2
			}
		case 7:
			log += fmt.Sprintf(" CompareAndDelete(%v,%v)", k, v)
			ok := m.CompareAndDelete(k, v)
			if ok != (had && same(old, v)) {
				failf("%s: CompareAndDelete returned %v", log, ok)
			}
			if ok {
				delete(ref, k)
			}
		default:
			log += " Range"
			seen := map[K]bool{}
			stop := r.Intn(5)
			m.Range(func(k K, v V) bool {
				w, ok := ref[k]
				if !ok || !same(v, w) || seen[k] {
					failf("%s: Range passed %v, %v", log, k, v)
				}
				seen[k] = true
				return len(seen) != stop
			})
			want := len(ref)
			if stop > 0 && stop < want {
				want = stop
			}
			if len(seen) != want {
				failf("%s: Range passed %d of %d entries (stop after %d)", log, len(seen), len(ref), stop)
			}
		}
	}
}

func c29(c *Ctx) {
	for round := 0; round == 0 || c.more() && round < 200; round++ {
		c.try("Pool with New", func() {
			var made atomic.Int32
			p := gsync.Pool[[4]int]{New: func() *[4]int { made.Add(1); return &[4]int{7} }}
			var wg sync.WaitGroup
			var mu sync.Mutex
			held := map[*[4]int]bool{}
			bad := ""
			for g := range 8 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for range 50 {
						x := p.Get()
						mu.Lock()
						if x == nil || held[x] || x[0] != 7 {
							bad = "Get returned nil, an object in use, or an object that was not created by New"
						}
						held[x] = true
						mu.Unlock()
						x[1] = g
						runtime.Gosched()
						if x[1] != g {
							bad = "two goroutines hold the same object"
						}
						mu.Lock()
						delete(held, x)
						mu.Unlock()
						p.Put(x)
					}
				}()
			}
			wg.Wait()
			if bad != "" {
				failf("%s", bad)
			}
			if made.Load() == 0 {
				failf("New was never called")
			}
		})
		c.try("concurrent first calls", func() {
			if raceEnabled {
				return // sync.Pool drops objects at random under the race detector
			}
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
			const per = 512
			for range 500 {
				var p gsync.Pool[int]
				var wg sync.WaitGroup
				var start atomic.Bool
				for range 4 {
					wg.Add(1)
					go func() {
						defer wg.Done()
						xs := make([]int, per)
						for !start.Load() {
						}
						for k := range xs {
							p.Put(&xs[k])
						}
					}()
				}
				start.Store(true)
				wg.Wait()
				n := 0
				for p.Get() != nil {
					n++
				}
				if n < 4*per-runtime.GOMAXPROCS(0)-1 {
					failf("only %d of %d objects can be taken from the pool after concurrent first Puts", n, 4*per)
				}
			}
		})
		c.try("Pool without New", func() {
			var p gsync.Pool[int]
			if x := p.Get(); x != nil {
				failf("Get of an empty pool without New returned %v", x)
			}
			v := new(int)
			ok := false
			for i := 0; i < 100 && !ok; i++ {
				p.Put(v)
				x := p.Get()
				if x != nil && x != v {
					failf("Get returned an object that was never put")
				}
				ok = x == v
			}
			if !ok {
				failf("100 Put/Get pairs never returned the object")
			}
		})
	}
}
