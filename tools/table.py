FJ_NOTE = ("Every obligation generated from the current source is discharged for all inputs, batch numbers and schedules (induction over the recursion; goroutines as unordered effects with happens-before obligations). "
           "Trusted: go/ssa, gvc, z3, the contracts assumed for sync.WaitGroup, fmt, runtime/debug; client functions terminate. ")
PAR = ["parallel/parallel.go", "internal/internal.go"]
SPEC = ["speculative/speculative.go", "internal/internal.go"]
SYNCST = [dict(name="captured results and panic values of the spawned half", meaning="written by the goroutine, read by the parent after the wait", where="closures of every function")]

prop("C01", "Fork/join calls run every given function exactly once and wait for all",
  "When a variadic fork/join call of the parallel package returns normally, each function it was given has been invoked exactly once and has terminated, and every effect of those functions is visible to the caller. No function is made to wait for another one of the list, so functions that block until another one has started cannot be deadlocked by the call. Empty lists and lists of length one are legal.",
  ["inputs", "schedules", "programs"], "every list length, every client function, every goroutine schedule",
  "The examples call the functions with two or three fixed arguments under one schedule; the length recursion and the join with the goroutine must be right for every length and interleaving.",
  PAR, [("recursive halving with one goroutine per half and WaitGroup join", "parallel.Do, And, Or, Reduce, ReduceSum, ReduceProduct")], SYNCST,
  ["number of invocations of each argument", "return of the call"], FJ_NOTE + "Client functions that panic are covered by C05.")

prop("C02", "Fork/join reductions return the ordered fold of the results",
  "For any list of functions and any associative combining operation, the reducing fork/join calls return exactly the combination of the results in list order (conjunction, disjunction, sum, product, or the given pair reducer). The identity is returned for an empty list where one exists, and never mixed in otherwise; the order of operands is kept for non-commutative operations.",
  ["inputs", "schedules", "programs"], "every list length, all result values, every associative operation, every schedule",
  "Tests use small commutative sums; an exchanged operand, a dropped half or an unsynchronised read shows only for non-commutative operations, odd lengths or rare schedules.",
  PAR, [("left/right results combined after the join", "parallel.And, Or, Reduce, ReduceSum, ReduceProduct")], SYNCST,
  ["returned value"], FJ_NOTE + "The combining operation is assumed associative, as documented.")

prop("C03", "Range calls cover the range exactly once with consecutive batches",
  "For every valid low, high and n, the batches passed to the range function are non-overlapping, cover the half-open interval from low to high exactly, are at most n in number (when n is positive), and each has low <= batch low < batch high <= high (a nonempty range has no empty batches). When n divides the size there are exactly n batches of equal size; an empty range gives one call with an empty batch. The call returns only when every batch has been processed, with its effects visible.",
  ["inputs", "schedules", "programs"], "all integers low <= high and n >= 0 (including bounds near the largest integer), every schedule",
  "Tests use ranges of a few sizes with the default n; off-by-one cuts and arithmetic overflow only show at specific combinations of size and n.",
  PAR, [("batch size and midpoint computation", "parallel.Range*, recur closures"), ("number of batches", "internal.ComputeNofBatches")], SYNCST,
  ["(low, high) arguments of every invocation"], FJ_NOTE + "Integer arithmetic is 64-bit wrapping; the width high-low is assumed representable.")

prop("C04", "Range reductions return the fold of the batch results in range order",
  "For every valid range and n and every associative combining operation, a range reduction returns the combination, in increasing range order, of the values that the range function returned for the batches it was invoked on. Reductions whose per-batch function is itself a homomorphism therefore do not depend on n or the number of processors.",
  ["inputs", "schedules", "programs"], "all valid ranges and n, all batch results, every associative operation, every schedule",
  "Tests check one commutative sum; the result must not depend on n, the number of CPUs, or which half finishes first.",
  PAR, [("left/right results combined after the join", "parallel.RangeAnd, RangeOr, RangeReduce, RangeReduceSum, RangeReduceProduct")], SYNCST,
  ["returned value"], FJ_NOTE + "The combining operation is assumed associative, as documented.")

prop("C05", "Fork/join calls propagate the left-most panic",
  "If one or more client functions panic during a call of the parallel package, the call itself panics, with the panic of the left-most panicking function in list or range order (a panic of the combining function included). The propagated value is the original value when it was raised on the calling goroutine, and otherwise carries the original text and, for errors, an error that unwraps to the original; a panic never kills the process, is never swallowed, and the call never hangs.",
  ["inputs", "schedules", "fault_sequences"], "every set of panicking functions, every list length or range, every schedule",
  "No test in the suite lets a client function panic.",
  PAR, [("recover in the spawned half and re-panic after the join", "all functions of package parallel"), ("internal.WrapPanic", "internal/internal.go")],
  [dict(name="recovered panic of the spawned half", meaning="nil or the wrapped panic value", where="closures of every function")],
  ["panic value observed by the caller"], FJ_NOTE + "fmt.Errorf with %w is assumed to keep the error chain; panic(nil) and runtime.Goexit by clients are outside the property.")

prop("C06", "Range calls reject invalid arguments before running anything",
  "Every range function of both fork/join packages panics when high < low or n < 0, for all values of the other arguments, and in that case the range function is not invoked at all. Valid arguments never cause such a panic.",
  ["inputs"], "all integers low, high and n",
  "No test passes invalid arguments; the empty range with negative n and bounds of opposite extreme sign are easily missed.",
  PAR + SPEC[:1], [("argument validation", "internal.ComputeNofBatches"), ("default case of the recursion", "Range* closures")], [],
  ["panic of the call", "number of invocations"], FJ_NOTE)

prop("C07", "PrefixSum returns all prefix sums",
  "For every slice (nil and empty included) and every element type whose + is associative on the values that occur, PrefixSum returns a slice of the same length whose element k is the sum, in index order, of the elements 0 to k that the argument had at the call. The order of operands is kept (strings are concatenated left to right). The call terminates, does not panic, its parallel parts do not race with each other, and none of them still touches the slices when it returns. The argument may be overwritten.",
  ["inputs", "schedules"], "every length up to 2^40, every content, every associative +, every schedule",
  "Tests sum one slice of ints; the number of rounds depends on the logarithm of the length, and an exchanged operand or an overlap between rounds shows only for some lengths, non-commutative + or rare schedules.",
  ["parallel/parallel.go"], [("doubling rounds over two alternating slices", "parallel.PrefixSum"), ("parallel copy and addition", "closures of PrefixSum, parallel.Do, parallel.Range")],
  [dict(name="slice, result", meaning="sums of the last 2^i elements; scratch space of the next round", where="parallel.PrefixSum")],
  ["returned slice"],
  "Every obligation generated from the current source is discharged for all lengths up to 2^40 and all schedules; the invariant of the rounds is found among windows of the last L elements for every integer L of the program. Calls of Do and Range stand for their contracts (C01, C03). Trusted: go/ssa, gvc, z3; assumed: int(Ceil(Log2(n))) and int(Exp2(i)) are exact for 1 <= n <= 2^40 (tested by the harness at the powers of two and next to them). ")

prop("C08", "Speculative calls return the left-most decisive result",
  "A speculative call returns the result that sequential evaluation in list or range order with short-circuiting would give: the left-most error for the plain calls, false/true for conjunctions/disjunctions exactly when some evaluated function is false/true in a way consistent with left-to-right evaluation, and for reductions the join of the results when no function signals early termination and the left-most signalled result otherwise.",
  ["inputs", "schedules", "programs"], "every list length or range, every combination of results, every schedule",
  "There are no tests for this package on its own; which half finishes first decides which code path runs.",
  SPEC, [("left result decides first, right result consulted otherwise", "all functions of package speculative")], SYNCST,
  ["returned values"], FJ_NOTE + "join is assumed associative and not to panic.")

prop("C09", "Speculative calls run each function at most once and finish what they need",
  "During a speculative call each given function (or range batch) is invoked at most once, and exactly once and to completion before the call returns when no function decides the result early; range batches are consecutive, disjoint and cover the range. The call does not wait for functions to the right of an early decisive result, but always waits for everything to the left of the result it returns.",
  ["inputs", "schedules", "programs"], "every list length, range and n, every combination of results, every schedule",
  "There are no tests for this package; early termination depends on the relative timing of both halves.",
  SPEC, [("early return before the join", "all functions of package speculative"), ("batch computation", "Range* closures, internal.ComputeNofBatches")], SYNCST,
  ["invocations of each function", "time of return"], FJ_NOTE)

prop("C10", "Speculative calls propagate the left-most decisive panic",
  "If client functions of a speculative call panic, the call behaves as sequential short-circuit evaluation would: a panic is propagated to the caller (text and error chain kept) exactly when no decisive result lies to the left of it, and otherwise has no effect. A panic in a speculatively running function never kills the process and never makes the call hang.",
  ["inputs", "schedules", "fault_sequences"], "every set of panicking and deciding functions, every schedule",
  "No test lets a client function panic.",
  SPEC, [("recover in the spawned half, re-panic after the join", "all functions of package speculative"), ("internal.WrapPanic", "internal/internal.go")],
  [dict(name="recovered panic of the spawned half", meaning="nil or the wrapped panic value", where="closures of every function")],
  ["panic value or result observed by the caller"], FJ_NOTE)

PIPE_NOTE = ("Every obligation generated from the current source is discharged for all inputs and all states the contract allows; concurrent callers appear as interference (arbitrary change of the shared cell before each atomic step or critical section) and as a two-goroutine happens-before check. "
             "Trusted: go/ssa, gvc, z3, the contracts assumed for sync and sync/atomic. ")
FILT = ["pipeline/filters.go", "pipeline/filter.go", "pipeline/pipeline.go"]

prop("C24", "The first error of a pipeline wins, cancels it, and is never replaced",
  "SetErr stores its argument, cancels the pipeline's context and returns true when the pipeline has no error yet, and otherwise changes nothing and returns false; among concurrent callers exactly one succeeds. Err returns the current error, so once an error was set every later Err call reports it. The error is visible before the cancelation. The error value is only accessed with the pipeline's lock held, and no lock is held when the functions return.",
  ["inputs", "schedules", "histories"], "every error value, every state of the pipeline, any number of concurrent SetErr and Err calls",
  "The test suite never sets an error from concurrent receivers; a check and a store in different critical sections only fails when two calls interleave.",
  ["pipeline/pipeline.go"], [("check and store of the error in one critical section", "pipeline.Pipeline.SetErr"), ("read under the read lock", "pipeline.Pipeline.Err")],
  [dict(name="pipelineState.err", meaning="first error, guarded by mutex", where="pipeline/pipeline.go")],
  ["results of SetErr and Err", "calls of the cancel function"], PIPE_NOTE + "Non-nil errors.")

prop("C25", "Boolean filters compute their quantifier over all batches",
  "For Every, NotEvery, Some and NotAny in nodes of every kind: after the pipeline has run, the result variable holds exactly the quantified predicate over all batches that the filter received (including none at all), each batch is passed on unmodified, the predicate is called exactly once per batch, the expected data size is not changed, and the pipeline is canceled exactly when the result is decided and cancelation was asked for. In parallel nodes no decision of a concurrent receiver is lost and there is no data race.",
  ["inputs", "schedules", "histories"], "every predicate, every sequence and interleaving of batches, every node kind",
  "Only a word count example runs pipelines in the suite; it does not use these filters.",
  FILT, [("sequential receivers write the result directly", "pipeline.Every, NotEvery, Some, NotAny"), ("parallel receivers use an atomic flag that the finalizer transfers", "pipeline.Every, NotEvery, Some, NotAny")],
  [dict(name="res", meaning="atomic decision flag of a parallel filter", where="closures in pipeline/filters.go")],
  ["*result after the finalizer", "batches passed on", "cancel calls"], PIPE_NOTE + "Receivers of one filter do not overlap in ordered and sequential nodes (C21); finalizers run after all receivers (C23).")

prop("C26", "Append and Count accumulate every batch exactly once",
  "Append adds the elements of every batch it receives, in the order in which it receives them, to the end of the result slice, keeping what was there; in parallel nodes each batch is added as one contiguous block and no batch is lost. Count sets its result to the total number of elements received, starting from zero, or directly to the announced data size when that is known. Both pass each batch on unmodified, keep the announced size, and have no data race in parallel nodes.",
  ["inputs", "schedules", "histories"], "every sequence and interleaving of batches of any length, every node kind, known and unknown sizes",
  "The suite does not run these filters; lost updates in parallel nodes need two receivers at the same time.",
  FILT, [("append under a mutex in parallel nodes", "pipeline.Append"), ("atomic addition in parallel nodes", "pipeline.Count")],
  [dict(name="*result / res", meaning="accumulated slice / number of elements", where="closures in pipeline/filters.go")],
  ["*result after the finalizer", "batches passed on"], PIPE_NOTE + "The total number of elements fits in an int; append is modelled as giving fresh storage.")

prop("C27", "Limit and Skip split the element sequence at exactly the given position",
  "A Limit node passes on exactly the first limit elements of the element sequence it receives (all of them for a negative limit), a Skip node exactly the elements after the first n (none, and an error, for negative n), for every way in which the sequence is cut into batches. Both are ordered nodes. The announced size is adjusted accordingly when it is known, the filter is left out only when it has nothing to remove, and Limit cancels the pipeline exactly when this was asked for and the limit is reached.",
  ["inputs", "histories"], "every limit, every known or unknown data size, every sequence of batches of any lengths",
  "The suite does not use Limit or Skip; cut positions inside a batch, at a batch border and beyond the end behave differently.",
  FILT, [("running count of elements seen", "pipeline.Limit, pipeline.Skip")],
  [dict(name="seen", meaning="min(elements so far, limit)", where="closures in pipeline/filters.go")],
  ["batches passed on", "announced data size", "cancel calls"], PIPE_NOTE + "Batches arrive in encounter order, one at a time (C20, C21).")

prop("C28", "gsync.Map is a typed, linearizable view of sync.Map",
  "Every method of gsync.Map performs exactly one operation of the same meaning on the underlying map, with the given keys and values, and returns its results converted back to the type parameters: each method is therefore atomic, zero values and ok flags follow the specification of sync.Map (for nil interface keys and values as well), and Range calls the function for each pair it visits and stops when the function returns false. No other state is kept.",
  ["inputs", "schedules", "histories", "programs"], "all key and value types (including interface types with nil values), all keys and values, any interleaving of calls",
  "There are no tests for this package; a method composed of two map operations is wrong only under concurrent updates, and nil interface values need unusual type arguments.",
  ["gsync/sync.go"], [("each method forwards to one method of sync.Map and converts the result", "gsync.Map.*")],
  [dict(name="the underlying sync.Map", meaning="content of the map", where="gsync/sync.go")],
  ["results of the methods", "content of the map"], PIPE_NOTE + "sync.Map itself is assumed to satisfy its documentation (linearizable methods).")

prop("C29", "gsync.Pool gives out pooled or newly made objects, never a wrong one",
  "Get returns an object that was given to Put and not returned since, or, if the pool has none, the result of calling New as it is set at that time, or nil when New is nil; it never panics because of an empty pool. Put makes the object available to later Get calls. All calls on the same Pool use the same underlying pool, also when they are made concurrently and for the first time, so objects are never lost to a second pool. There is no data race.",
  ["inputs", "schedules", "histories"], "any interleaving of Get and Put, with and without New, first calls included",
  "There are no tests for this package; two first calls at the same time, or a New function set later, need a specific order.",
  ["gsync/sync.go"], [("lazily created sync.Pool published with compare-and-swap", "gsync.Pool.getSyncPool, Get, Put")],
  [dict(name="syncPool", meaning="the underlying pool, set once", where="gsync/sync.go")],
  ["results of Get"], PIPE_NOTE + "sync.Pool itself is assumed to satisfy its documentation.")

SRC = ["pipeline/source.go"]
prop("C16", "Sources hand out every element once, in order, in separate batches",
  "For each kind of source (slices, line and byte scanners, functions, single- and multi-element channels) and any sequence of requested batch sizes >= 1: the concatenation of the batches is exactly the element sequence of the underlying slice, scanner, function or channel, with nothing lost, repeated or reordered; each Fetch returns the number of elements it delivers, which is the requested number while enough elements are left; Data is the batch fetched last; Err reports the error of the underlying scanner or function. Batches delivered earlier are not overwritten by later fetches, and appending to a batch does not reach other elements. Channel sources never block without watching for cancelation, and a known size is announced only when it is exact.",
  ["inputs", "histories", "schedules"], "every input length, every sequence of batch sizes, every position at which the input ends, the channel is closed or the pipeline is canceled",
  "The one example reads a small text with one batch size; a source that loses a token at a batch border or reuses a buffer is only seen with particular sizes and slow consumers.",
  SRC, [("cutting of slices", "pipeline.Slice"), ("copying of tokens", "pipeline.Scanner, pipeline.BytesScanner"), ("receiving with cancelation", "pipeline.Chan, pipeline.MultiChan"), ("forwarding", "pipeline.Func")],
  [dict(name="data", meaning="the batch fetched last", where="all sources")],
  ["results of Prepare, Fetch, Data and Err"], PIPE_NOTE + "bufio.Scanner is assumed to satisfy its documentation; fetch functions return as many elements as they say.")

NODE = ["pipeline/parnode.go", "pipeline/seqnode.go", "pipeline/strictordnode.go", "pipeline/lparnode.go", "pipeline/filter.go", "pipeline/pipeline.go"]
NODE_NOTE = ("Every obligation generated from the current source is discharged for every sequence of batches and every schedule: the feeding side and the goroutines of a node are verified separately against a protocol for the channel, lock, condition variable and WaitGroup they share (rely: any number of other batches in flight, in any order the protocol allows; guarantee: what the code does). "
             "That the two sides of an unbuffered channel fit together (what is received is what was sent) is a paper argument in DESIGN.md. Trusted: go/ssa, gvc, z3, the contracts assumed for sync, context, channels; receivers terminate, do not panic and keep the protocol of FeedForward. ")
prop("C17", "A run feeds every fetched batch once, numbered consecutively, then ends",
  "Running a pipeline starts every notifier installed with Notify once in its own goroutine, prepares the source once with the pipeline's context, begins every node once with its index, and then, as long as the source delivers data and no error occurs, feeds each fetched batch exactly once to the first node with its own data and with sequence numbers 0, 1, 2, ... After an error has been set no further batch is fetched. Nodes that decline in Begin are left out; when no error occurred every remaining node is ended once, in order, after the last batch. An error of the source becomes the error of the pipeline. Run does all this once with a fresh context that is canceled at the end in all cases.",
  ["inputs", "histories", "fault_sequences"], "every source, every list of nodes, every configuration, every point at which an error is set",
  "The example runs one pipeline without errors; skipped numbers, batches after an error or a node that is not ended only show with other nodes, sources or error times.",
  ["pipeline/pipeline.go"], [("fetch-feed loops", "pipeline.Pipeline.defaultRunWithContext"), ("removal of nodes that decline", "pipeline.Pipeline.defaultRunWithContext"), ("context of its own", "pipeline.Pipeline.Run")],
  [dict(name="Pipeline.nodes", meaning="nodes that take part in the run", where="pipeline/pipeline.go"), dict(name="pipelineState.err", meaning="first error", where="pipeline/pipeline.go")],
  ["calls of Prepare, Begin, Fetch, Data, Feed, End and of the notifiers"], PIPE_NOTE + "Sources and nodes appear as interfaces with arbitrary behaviour; their own contracts are C16 and C19 to C23.")

prop("C18", "Batch sizes follow the documented policy",
  "For a source of known size n, all batches are requested with the same positive size, the smallest one for which the configured number of batches (the number of processors by default) covers n. For a source of unknown size the requested sizes start at the batch increment and grow by it up to the maximum batch size, where 0 or negative settings mean the defaults 512 and 4096. Requested sizes are positive for every setting and every size, also near the largest integer.",
  ["inputs"], "all integers for the data size, number of batches, increment and maximum size",
  "Tests use default settings; overflow and off-by-one errors of the size computation need particular sizes.",
  ["pipeline/pipeline.go"], [("batch size of known sizes", "pipeline.Pipeline.defaultRunWithContext, NofBatches"), ("growing sizes", "pipeline.Pipeline.nextBatchSize, finalizeVariableBatchSize")],
  [dict(name="nofBatches, batchInc, maxBatchSize", meaning="settings", where="pipeline.pipelineState")],
  ["argument of every Fetch"], PIPE_NOTE)

prop("C19", "Each node processes every batch once through its receivers, in filter order",
  "A node of any kind passes each batch that is fed to it through its receivers exactly once, in the order of its filters, each receiver getting the result of the one before it, and forwards the final result exactly once to the next node with the same sequence number. Filters that return a receiver and/or a finalizer contribute exactly those, in order (Identity none, Receive, Finalize and ReceiveAndFinalize what they are given); a node takes part exactly when it has a receiver or a finalizer. Every batch that was accepted is completely processed before End runs the finalizers, unless the pipeline is canceled.",
  ["inputs", "schedules", "histories"], "every list of filters and receivers, every sequence and interleaving of batches",
  "Tests run one word count; a batch lost or passed on twice in a stash or during shutdown shows only in rare schedules.",
  NODE, [("composition of filters", "pipeline.ComposeFilters"), ("filter constructors", "pipeline.Identity, Receive, Finalize, ReceiveAndFinalize"), ("receivers in order, then FeedForward", "pipeline.feed"), ("hand-over to goroutines", "Feed and Begin of every node kind")],
  [dict(name="receivers", meaning="composed filters", where="all nodes"), dict(name="stash", meaning="batches that arrived early", where="seqnode")],
  ["calls of receivers", "calls of FeedForward"], NODE_NOTE)

prop("C20", "Ordered nodes process batches in encounter order",
  "Ordered and strictly ordered nodes, and limited parallel nodes placed before a strictly ordered node, pass batches to their receivers (ordered, strictly ordered) or accept them (limited parallel) exactly in the order of their sequence numbers 0, 1, 2, ..., whatever the order in which the batches arrive from preceding nodes.",
  ["schedules", "histories"], "every arrival order of batches, every schedule",
  "In tests batches nearly always arrive in order, so the stash and the waiting loops are hardly exercised.",
  NODE, [("stash of early batches", "pipeline.seqnode"), ("turn taking with a condition variable", "pipeline.strictordnode, pipeline.lparnode")],
  [dict(name="run", meaning="sequence number whose turn it is", where="nodes"), dict(name="stash", meaning="batches that arrived early", where="seqnode")],
  ["sequence numbers passed to receivers"], NODE_NOTE)

prop("C21", "Receivers of sequential and ordered nodes never overlap",
  "In sequential, ordered and strictly ordered nodes at most one receiver call is active at any time, and consecutive calls are ordered by happens-before, so that receivers may use state of their own without synchronisation. Limited parallel nodes have at most limit receiver calls active. The state of the nodes themselves is free of data races.",
  ["schedules"], "every schedule, every arrival order, any number of batches in flight",
  "Overlap needs two batches in flight at the same node at the right time; a test that passes says nothing about other schedules.",
  NODE, [("one goroutine per node that calls receivers", "pipeline.seqnode, pipeline.strictordnode"), ("limit goroutines", "pipeline.lparnode")],
  [dict(name="channel", meaning="hand-over of batches to the goroutine", where="nodes")],
  ["start and end of receiver calls"], NODE_NOTE)

prop("C22", "Nodes before a strictly ordered node respect the encounter order",
  "When a pipeline contains a strictly ordered node, every sequential and limited parallel node before it handles batches in encounter order, so that no node waits for a batch that cannot arrive; this is arranged before any node begins. A strictly ordered node lets a batch pass exactly when all batches with smaller numbers have passed, wakes up all waiting feeders after each step, and is never blocked forever by a missed wakeup.",
  ["schedules", "histories", "inputs"], "every list of nodes, every arrival order, every schedule",
  "Deadlock needs all workers of a limited node to hold later batches at the same time, which a test hardly produces.",
  NODE, [("sweep over the nodes before a StrictOrd node", "pipeline.Pipeline.defaultRunWithContext"), ("turn taking", "pipeline.strictordnode.Feed, pipeline.lparnode.Feed")],
  [dict(name="ordered, cond, kind", meaning="ordering mode of a node", where="pipeline.lparnode, pipeline.seqnode")],
  ["order of receiver calls", "termination of Run"], NODE_NOTE + "Freedom from deadlock is decided in parts: order of hand-over, wakeup after every step, no lock held while waiting for the channel of a finished worker.")

prop("C23", "Finalizers run exactly once, after all receivers have finished",
  "When a run ends without error, every finalizer of every node has been called exactly once, in the order of its filters, by the goroutine that called Run, after every receiver call of that node has returned, with its effects visible; nodes end in pipeline order. Goroutines of nodes have terminated, or terminate without any further receiver call.",
  ["schedules", "histories"], "every schedule, every list of filters and nodes, any number of batches",
  "A missing wait is invisible unless a receiver of the last batch is slow.",
  NODE, [("WaitGroup per node", "End of every node kind"), ("End loop", "pipeline.Pipeline.defaultRunWithContext")],
  [dict(name="waitGroup", meaning="batches or workers still active", where="nodes")],
  ["calls of finalizers", "calls of receivers"], NODE_NOTE)

prop("C30", "Cancelation never leaves a node waiting",
  "When the pipeline's context is canceled at any time, every feeder and every worker goroutine of every node stops waiting: sends to and receives from node channels also watch the context, waiting for a turn ends after cancelation because every worker that stops broadcasts under the lock, and the waiting loop checks the context before it waits. WaitGroups are decremented on this path as well, so that End returns.",
  ["schedules", "fault_sequences", "crash_points"], "every point in time of the cancelation, every schedule",
  "No test cancels a pipeline; a lost wakeup needs the cancelation between a check and a wait.",
  NODE, [("select on ctx.Done()", "all nodes with goroutines"), ("broadcast after cancelation", "pipeline.strictordnode, pipeline.lparnode")],
  [dict(name="ctx", meaning="context of the run", where="pipeline.pipelineState")],
  ["termination of Run after cancelation"], NODE_NOTE)


prop("C31", "Adding and merging nodes keeps all filters, in order, in the right kind of node",
  "Add appends the given nodes to the pipeline in order, and replaces a node and its successor by one node only where the node accepts its successor. A node merges with its neighbour only when the two are of kinds that process batches the same way and, for limited parallel nodes, have the same limit; the merged node then has all filters (before Begin) or all receivers and finalizers (after Begin) of the first followed by those of the second. Nodes that cannot be merged are left as they are. The slices that a caller passes to Add or to node constructors are not written to. During a run, only neighbours are merged, each once, after all nodes have begun, and the nodes that remain keep their order.",
  ["inputs", "programs"], "every list of nodes of every kind, with every list of filters, limits and ordering modes",
  "The example merges nothing; an order reversed in one merge branch, or a limit that is lost, needs two particular neighbours.",
  NODE, [("merging of filters", "TryMerge of every node kind"), ("merging of neighbours", "pipeline.Pipeline.Add, defaultRunWithContext")],
  [dict(name="filters, receivers, finalizers", meaning="work of a node", where="all nodes"), dict(name="Pipeline.nodes", meaning="nodes in order", where="pipeline/pipeline.go")],
  ["order of receiver and finalizer calls", "nodes of the pipeline"], PIPE_NOTE + "Capacity of slices owned by callers is modelled for Add; other appends give fresh storage.")

prop("C32", "Transform continues a pipeline with batches of another type",
  "Each Transform constructor adds to the given pipeline a node of its kind that passes batches on unchanged (none for plain Transform) followed by a transform node, and returns a pipeline without nodes that shares context, error state and settings with the given one. The transform node calls its function exactly once for each batch fed to it, with its sequence number, and feeds the result once to the first node of the following pipeline with the same sequence number. The nodes of the following pipeline begin once each with a shared data size, are merged only with neighbours, and end once each, in order; nodes that decline are left out, and so is the transform node when none remains. If a node of the following pipeline is strictly ordered, the transform node counts as strictly ordered and all nodes before that one respect the encounter order.",
  ["inputs", "histories", "programs"], "every list of following nodes with any answers of Begin, TryMerge and StrictOrd; every batch",
  "No test uses a transform node.",
  ["pipeline/transformnode.go", "pipeline/pipeline.go"], [("call of the function and forwarding", "pipeline.transformNode.Feed"), ("nodes of the following pipeline", "pipeline.transformNode.Begin, StrictOrd, End"), ("constructors", "pipeline.Transform, OrdTransform, SeqTransform, ParTransform, StrictOrdTransform, LimitedParTransform")],
  [dict(name="next", meaning="pipeline that follows", where="pipeline.transformNode")],
  ["calls of the transform function", "calls of Begin, Feed and End of the following nodes"], PIPE_NOTE + "Add is used through its contract (C31); nodes appear as interfaces with arbitrary behaviour.")

PSORT_NOTE = ("Every obligation generated from the current source is discharged for collections of every length and content: recursion by contracts of the recursive functions with a decreasing measure, loops by inferred invariants with a decreasing measure. "
              "The collection is abstract: its methods appear by the contracts that the documentation gives them, an arbitrary strict weak order appears as an integer rank of the elements. "
              "Trusted: go/ssa, gvc, z3, the contracts of the fork/join calls (C01-C05) and of sync and sync/atomic; on paper: distinct tokens within a range make a permutation. Collections have at most 2^61 elements. ")

prop("C11", "psort.Sort sorts every collection, as a permutation, within its bounds",
  "For every collection whose methods satisfy their documentation and every strict weak order, Sort terminates and leaves the collection in ascending order, as a permutation of the elements it held before. Methods are only asked for indices and ranges that lie within the collection.",
  ["inputs", "programs"], "every length (below and above the sequential cutoffs), every content including many equal elements, every strict weak order, every correct SequentialSort",
  "Tests sort random data of two sizes; a partition that mishandles elements equal to the pivot, an empty side, or an extreme median shows only for particular contents.",
  ["psort/quicksort.go", "psort/sort.go", "parallel/parallel.go"], [("median selection, partition loop, recursion on both sides", "psort.Sort, psort.pseudoMedianOfNine, psort.medianOfThree"), ("skipping sorted collections", "psort.IsSorted")],
  [dict(name="the collection", meaning="elements at indices 0..Len()-1", where="client")], ["content of the collection after the call", "arguments of Len, Less, Swap, SequentialSort"], PSORT_NOTE)

prop("C12", "psort.StableSort sorts every collection stably, as a permutation",
  "For every collection whose methods satisfy their documentation and every strict weak order, StableSort terminates and leaves the collection in ascending order, as a permutation of the elements it held before, with equal elements in their original order. Methods of the collection and of the temporary collection are only asked for indices and ranges that lie within it.",
  ["inputs", "programs"], "every length, every content, every strict weak order, every correct NewTemp, Assign and (stable) SequentialSort",
  "Tests sort random data of two sizes; a search that treats equal elements of the two runs alike, or a merge cut off by one, shows only when equal elements meet the split points of large merges.",
  ["psort/mergesort.go", "parallel/parallel.go"], [("four-way recursion and two levels of merging through the temporary collection", "psort.StableSort"), ("parallel merge by binary search", "psort.pMerge, binarySearchEq, binarySearchNeq"), ("sequential merge", "psort.sMerge")],
  [dict(name="collection and temporary collection", meaning="elements at indices 0..Len()-1", where="client")], ["content of the collection after the call", "arguments of Less, SequentialSort and of the assigning functions"], PSORT_NOTE)

prop("C13", "psort.IsSorted reports exactly whether the collection is sorted",
  "For every collection and every strict weak order, IsSorted terminates, returns true exactly when no element sorts before its predecessor, does not modify the collection, and asks Less only for indices within the collection.",
  ["inputs", "schedules"], "every length, every position of any number of descents, every schedule of the parallel test",
  "Tests check one sorted and one unsorted collection; a pair that falls between two parts, or a flag that is set too early, is missed.",
  ["psort/sort.go", "parallel/parallel.go"], [("sequential prefix, parallel halves, early exit through a shared flag", "psort.IsSorted")],
  [dict(name="done", meaning="set only when a descent was found", where="psort.IsSorted")], ["result", "arguments of Less"], PSORT_NOTE)

prop("C14", "Sorting is free of data races and done when the call returns",
  "For collections whose methods access exactly the elements that they are given as arguments, Sort, StableSort and IsSorted never let two goroutines access the same element at the same time with one of them writing, never use a temporary collection before it has been made, and no goroutine accesses the collection after the call has returned. For the adapters of the package, making a temporary collection and preparing an assignment do not access elements.",
  ["inputs", "schedules"], "every length and content, every goroutine schedule",
  "The test suite runs without the race detector on a few sizes; overlap of neighbouring ranges by one element, or a missing wait, needs a specific schedule to do damage.",
  ["psort/quicksort.go", "psort/mergesort.go", "psort/sort.go"], [("disjoint ranges of concurrent calls", "psort.Sort, psort.StableSort, psort.pMerge"), ("waiting for the temporary collection", "psort.StableSort"), ("atomic flag", "psort.IsSorted")],
  [dict(name="temp, T, A", meaning="temporary collection, published by a WaitGroup", where="psort.StableSort")], ["accesses to the elements, and their order"], PSORT_NOTE)

prop("C15", "The slice adapters implement the sort interfaces with one strict order",
  "For IntSlice, Float64Slice and StringSlice: Len is the length; Less is a strict weak order, namely < with NaN before every number, which is the order that SequentialSort uses; Swap exchanges exactly the two elements; SequentialSort(i, j) stably sorts exactly the elements i to j-1; NewTemp gives a collection of the same type and length with storage of its own; Assign(source)(i, j, n) has exactly the effect of receiver[i:i+n] = source[j:j+n]. IntsAreSorted, Float64sAreSorted and StringsAreSorted report exactly whether the slice is sorted in that order, and do not modify it.",
  ["inputs"], "every slice (including nil, empty, and slices of larger arrays) and all arguments within range; every floating-point value including NaN, infinities and signed zeros",
  "Tests sort random ints and floats without NaNs; an order that disagrees with the sequential sort, or an assignment at the wrong offset, corrupts only some inputs.",
  ["psort/sort.go"], [("methods of the three adapters", "psort.IntSlice, Float64Slice, StringSlice"), ("sortedness functions", "psort.IntsAreSorted, Float64sAreSorted, StringsAreSorted")],
  [], ["results of the methods", "content of the slices"],
  "Every obligation generated from the current source is discharged for all slices and arguments. Trusted: go/ssa, gvc, z3; assumed contracts: sort.Stable and the other library sorts (stable where documented), sort.IsSorted, copy; comparison of floats as a total order on numbers with NaN incomparable, comparison of strings as a total order. ")
