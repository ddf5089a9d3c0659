package main

// The properties claimed, the units they rest on, and what is trusted.

var baseTrusted = []string{
	"golang.org/x/tools/go/ssa v0.52.0 as the meaning of the Go source (SSA without optimisation; generic functions verified once, at their type-parameter form)",
	"gvc, the verification-condition generator in /verif/gvc (Go memory model as happens-before with vector clocks; int is 64-bit, arithmetic wraps)",
	"z3 5.3.2 (each unsat answer), cvc5 1.1.2 where it is named as back end",
}

var syncTrusted = []string{
	"assumed contract: sync.WaitGroup (Wait returns when the counter is zero and is ordered after every Done), go statement, defer, panic and recover as in the Go specification",
	"assumed contract: fmt.Sprintf/Errorf keep the text of their argument, %w keeps the error chain; debug.Stack returns bytes",
	"client functions terminate, do not panic with nil, do not call runtime.Goexit",
}

func sel(tags string, units ...string) []UnitSel {
	var out []UnitSel
	for _, u := range units {
		out = append(out, UnitSel{u, splitParams(tags)})
	}
	return out
}

var parVariadic = []string{"parallel.Do", "parallel.And", "parallel.Or", "parallel.Reduce", "parallel.ReduceSum", "parallel.ReduceProduct"}
var parRange = []string{"parallel.Range", "parallel.RangeAnd", "parallel.RangeOr", "parallel.RangeReduce", "parallel.RangeReduceSum", "parallel.RangeReduceProduct"}
var specVariadic = []string{"speculative.Do", "speculative.And", "speculative.Or", "speculative.Reduce"}
var specRange = []string{"speculative.Range", "speculative.RangeAnd", "speculative.RangeOr", "speculative.RangeReduce"}

var mapMethods = []string{"CompareAndDelete", "CompareAndSwap", "Delete", "Load", "LoadAndDelete", "LoadOrStore", "Range", "Store", "Swap"}

func prefixed(p string, names ...string) []string {
	var out []string
	for _, n := range names {
		out = append(out, p+n)
	}
	return out
}

var pipeTrusted = []string{
	"assumed contracts: sync.Mutex/RWMutex (mutual exclusion, release ordered before the next acquisition), sync/atomic (sequentially consistent), context (cancel closes Done)",
	"append gives fresh storage (aliasing of the spare capacity of a slice is checked where it belongs to a caller, otherwise not modelled)",
	"client functions (predicates, receivers, sources) terminate and do not panic",
}

var nodeUnits = prefixed("pipeline.node.", "Par", "Seq", "Ord", "StrictOrd", "LimitedPar", "LimitedParOrdered")

var nodeTrusted = append(append([]string{}, pipeTrusted...),
	"composition on paper (DESIGN.md): a receive from an unbuffered channel yields what the verified Feed sent; each sequence number is fed once",
	"assumed contract: sync.Cond (Wait releases and reacquires the lock, Broadcast wakes all waiters)",
	"sequence numbers stay below 2^62")

var psortAdapters = prefixed("psort.", "IntSlice", "Float64Slice", "StringSlice")

var psortTrusted = []string{
	"assumed contracts of the collection (client code): Len is constant; Less is a strict weak order on the elements and reads exactly the two given; Swap, SequentialSort and assigning do what their documentation says and access exactly the elements named; NewTemp and Assign access no elements and give at least as much room",
	"contracts of parallel.Do, And, Or (C01, C02, C05), of speculative.And (C08-C10) and of psort.IsSorted (C13) stand for these calls",
	"on paper (DESIGN.md): a strict weak order on finitely many elements is given by an integer rank; distinct tokens within a range are a permutation of it; collections have at most 2^61 elements",
	"assumed contract: sync.WaitGroup, sync/atomic (sequentially consistent)",
}

func cat(xs ...[]UnitSel) []UnitSel {
	var out []UnitSel
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}

func trustedBase(p *Prop) []string {
	return append(append([]string{}, baseTrusted...), p.Trusted...)
}

var props = []*Prop{
	{ID: "C01", Units: sel("calls,join,indep,wait,wg,race,term,lock", parVariadic...), Trusted: syncTrusted},
	{ID: "C02", Units: sel("result,race,wait", parVariadic...), Trusted: append(syncTrusted, "join, + and * are taken as associative on the values that occur (as the documentation requires)")},
	{ID: "C03", Units: sel("calls,join,indep,batch,wait,wg,race,term", parRange...), Trusted: append(syncTrusted, "high-low is representable or low >= 0")},
	{ID: "C04", Units: sel("result,race,wait,calls,batch", parRange...), Trusted: append(syncTrusted, "join, + and * are taken as associative on the values that occur (as the documentation requires)")},
	{ID: "C05", Units: sel("panic,calls,result,race,wait", append(append([]string{}, parVariadic...), parRange...)...), Trusted: syncTrusted},
	{ID: "C06", Units: sel("invalid", append(append([]string{}, parRange...), specRange...)...), Trusted: syncTrusted},
	{ID: "C07", Units: sel("", "parallel.PrefixSum"), Race: true, Trusted: []string{
		"contracts of parallel.Do (C01) and parallel.Range (C03) stand for these calls: every batch once, batches disjoint and covering the range, all finished at the return",
		"int(math.Ceil(math.Log2(float64(n)))) is the least c with n <= 2^c for 1 <= n <= 2^40, int(math.Exp2(float64(i))) is 2^i for 0 <= i < 62 (tested by the harness at the powers of two and next to them)",
		"+ is associative on the values that occur; slices have at most 2^40 elements"}},
	{ID: "C08", Units: sel("result,race,wait", append(append([]string{}, specVariadic...), specRange...)...), Trusted: append(syncTrusted, "join is associative on the values that occur; join does not panic")},
	{ID: "C09", Units: sel("calls,join,early,indep,batch,wait,wg,race,term", append(append([]string{}, specVariadic...), specRange...)...), Trusted: syncTrusted},
	{ID: "C10", Units: sel("panic,result,race,wait,early", append(append([]string{}, specVariadic...), specRange...)...), Trusted: syncTrusted},
	{ID: "C11", Units: sel("sorted,perm,bounds,pre,term", "psort.Sort"), Trusted: psortTrusted},
	{ID: "C12", Units: sel("sorted,perm,bounds,pre,term", "psort.StableSort"), Trusted: psortTrusted},
	{ID: "C13", Units: sel("issorted,perm,bounds,pre,term,wait", "psort.IsSorted"), Trusted: psortTrusted},
	{ID: "C14", Units: cat(sel("race,wait,wg,pre", "psort.Sort", "psort.StableSort", "psort.IsSorted"), sel("race", psortAdapters...)), Race: true, Trusted: psortTrusted},
	{ID: "C15", Units: sel("", psortAdapters...), Trusted: []string{"assumed contracts: sort.Stable, sort.Sort, sort.IsSorted and the like as documented", "comparison of floats is a total order on numbers with NaN incomparable; comparison of strings is a total order"}},
	{ID: "C16", Units: sel("", prefixed("pipeline.", "Slice", "Scanner", "BytesScanner", "Func", "Chan", "MultiChan")...), Trusted: append(pipeTrusted, "assumed contract: bufio.Scanner as documented (Scan advances to the next token, Text/Bytes return it, Bytes only until the next Scan)")},
	{ID: "C17", Units: cat(sel("run,err,final", "pipeline.run"), sel("", "pipeline.Run", "pipeline.Notify")), Trusted: pipeTrusted},
	{ID: "C18", Units: cat(sel("size", "pipeline.run"), sel("", "pipeline.batchsize")), Trusted: pipeTrusted},
	{ID: "C19", Units: cat(sel("", "pipeline.feed", "pipeline.ComposeFilters", "pipeline.ctors"), sel("begin,batch", nodeUnits...)), Trusted: nodeTrusted},
	{ID: "C20", Units: sel("order,strict,batch", prefixed("pipeline.node.", "Ord", "StrictOrd", "LimitedParOrdered")...), Trusted: nodeTrusted},
	{ID: "C21", Units: sel("overlap,frame,race,lock", prefixed("pipeline.node.", "Seq", "Ord", "StrictOrd", "LimitedPar", "LimitedParOrdered")...), Trusted: nodeTrusted},
	{ID: "C22", Units: cat(sel("strict,order,wake", prefixed("pipeline.node.", "StrictOrd", "LimitedParOrdered")...), sel("strict", "pipeline.run")), Trusted: nodeTrusted},
	{ID: "C23", Units: cat(sel("final", nodeUnits...), sel("final", "pipeline.run")), Trusted: nodeTrusted},
	{ID: "C24", Units: cat(sel("", "pipeline.SetErr", "pipeline.Err"), sel("err", "pipeline.run")), Trusted: pipeTrusted},
	{ID: "C25", Units: sel("", prefixed("pipeline.", "Every", "NotEvery", "Some", "NotAny")...), Trusted: pipeTrusted},
	{ID: "C26", Units: sel("", "pipeline.Append", "pipeline.Count"), Trusted: pipeTrusted},
	{ID: "C27", Units: sel("", "pipeline.Limit", "pipeline.Skip"), Trusted: pipeTrusted},
	{ID: "C28", Units: sel("", prefixed("gsync.Map.", mapMethods...)...), Trusted: []string{"assumed contract: sync.Map as documented (each method is one linearizable operation)"}},
	{ID: "C30", Units: sel("cancel,lock,wake", nodeUnits...), Trusted: nodeTrusted},
	{ID: "C31", Units: cat(sel("", append(prefixed("pipeline.TryMerge.", "Par", "LimitedPar", "Seq", "Ord", "StrictOrd"), "pipeline.Add")...), sel("merge", "pipeline.run")), Trusted: pipeTrusted},
	{ID: "C32", Units: sel("", prefixed("pipeline.", "Transform", "transform.Begin", "transform.StrictOrd", "transform.Feed", "transform.End")...), Trusted: pipeTrusted},
	{ID: "C29", Units: sel("", "gsync.Pool.Get", "gsync.Pool.Put"), Trusted: []string{"assumed contracts: sync.Pool and sync/atomic as documented"}},
}

func propByID(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}
