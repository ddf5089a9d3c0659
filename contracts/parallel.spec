// Contracts of package parallel (and of package internal, which is verified
// inline in every caller).
//
// Specification functions.  Leaf k of a variadic call is the k-th function of
// the underlying argument array; a leaf of a range call is one batch [lo,hi).
//   Panics(a,b)   some leaf of [a,b) panics
//   PV(a,b)       the value of the left-most panic of [a,b)
//   PE(a,b)       whether that value is an error
//   H*(a,b)       the ordered fold of the leaf results of [a,b)
// They describe the behaviour of the client's functions; the laws below say no
// more than that a fold over adjacent ranges is the fold over their union (for
// Reduce/RangeReduce: that join is associative on the values that occur).
const K Int
ghost started, batches, qbatches
ghost own done, own completed

logic Panics(Int,Int) Bool
logic PV(Int,Int) U
logic PE(Int,Int) Bool
logic HB(Int,Int) Bool
logic HO(Int,Int) Bool
logic HS(Int,Int) U
logic HP(Int,Int) U
logic HJ(Int,Int) U
logic join(U,U) U

axiom forall a, b, c {Panics(a,b), Panics(b,c)} :: a < b && b < c ==> (Panics(a,c) <==> (Panics(a,b) || Panics(b,c)))
axiom forall a, b, c {PV(a,b), PV(b,c)} :: a < b && b < c ==> PV(a,c) == ite(Panics(a,b), PV(a,b), PV(b,c)) && (PE(a,c) <==> ((Panics(a,b) ==> PE(a,b)) && (!Panics(a,b) ==> PE(b,c))))
axiom forall a, b, c {Panics(a,b), PV(b,c)} :: a < b && b < c ==> PV(a,c) == ite(Panics(a,b), PV(a,b), PV(b,c)) && (PE(a,c) <==> ((Panics(a,b) ==> PE(a,b)) && (!Panics(a,b) ==> PE(b,c))))
axiom forall a, b, c {PV(a,b), Panics(a,c)} :: a < b && b < c ==> PV(a,c) == ite(Panics(a,b), PV(a,b), PV(b,c)) && (Panics(a,b) ==> Panics(a,c)) && (PE(a,c) <==> ((Panics(a,b) ==> PE(a,b)) && (!Panics(a,b) ==> PE(b,c))))
axiom forall a, b, c {Panics(a,b), Panics(a,c)} :: a < b && b < c && Panics(a,b) ==> Panics(a,c)
axiom forall a, b, c {HB(a,b), HB(b,c)} :: a < b && b < c ==> (HB(a,c) <==> (HB(a,b) && HB(b,c)))
axiom forall a, b, c {HB(a,b), HB(a,c)} :: a < b && b < c && !HB(a,b) ==> !HB(a,c)
axiom forall a, b, c {HO(a,b), HO(b,c)} :: a < b && b < c ==> (HO(a,c) <==> (HO(a,b) || HO(b,c)))
axiom forall a, b, c {HO(a,b), HO(a,c)} :: a < b && b < c && HO(a,b) ==> HO(a,c)
axiom forall a, b, c {add(HS(a,b), HS(b,c))} :: a < b && b < c ==> add(HS(a,b), HS(b,c)) == HS(a,c)
axiom forall a, b, c {mul(HP(a,b), HP(b,c))} :: a < b && b < c ==> mul(HP(a,b), HP(b,c)) == HP(a,c)
axiom forall a, b, c {join(HJ(a,b), HJ(b,c))} :: a < b && b < c ==> join(HJ(a,b), HJ(b,c)) == HJ(a,c)

// ---- client functions: one leaf of a variadic call

macro leaf
  requires [indep] completed == 0
  effect exact [calls] started += b2i(i == K)
  effect own [join] done += b2i(i == K)
  effect own [join] completed += 1
  ensures [panic] !Panics(i, i+1)
  raises [panic] Panics(i, i+1) && root(val) == PV(i, i+1) && (is_error(val) <==> PE(i, i+1)) && (is_error(val) ==> chain(val)) && val != nil
end
callback thunk(i)
  use leaf
end
callback boolAnd(i)
  use leaf
  ensures [result] result <==> HB(i, i+1)
end
callback boolOr(i)
  use leaf
  ensures [result] result <==> HO(i, i+1)
end
callback valSum(i)
  use leaf
  ensures [result] result == HS(i, i+1)
end
callback valProd(i)
  use leaf
  ensures [result] result == HP(i, i+1)
end
callback valJoin(i)
  use leaf
  ensures [result] result == HJ(i, i+1)
end
callback joinFn(x, y)
  ensures [result] result == join(x, y)
end

// ---- client functions: one batch of a range call

macro batch
  requires [indep] completed == 0
  requires [batch] LOW <= lo && hi <= HIGH && lo <= hi && (lo == hi ==> LOW == HIGH)
  effect exact [calls] started += b2i(in(K, lo, hi))
  effect [batch] batches += 1
  effect own [join] done += b2i(in(K, lo, hi))
  effect own [join] completed += 1
  ensures [panic] !Panics(lo, hi)
  raises [panic] Panics(lo, hi) && root(val) == PV(lo, hi) && (is_error(val) <==> PE(lo, hi)) && (is_error(val) ==> chain(val)) && val != nil
end
const LOW Int
const HIGH Int
// an arbitrary batch size: when the size of a range is Q*k, k batches of size Q are made
const Q Int
axiom forall x, k {x / k} :: 1 <= k && 1 <= Q && x == Q * k - 1 ==> x / k == Q - 1
callback rthunk(lo, hi)
  use batch
end
callback rboolAnd(lo, hi)
  use batch
  ensures [result] result <==> HB(lo, hi)
end
callback rboolOr(lo, hi)
  use batch
  ensures [result] result <==> HO(lo, hi)
end
callback rvalSum(lo, hi)
  use batch
  ensures [result] result == HS(lo, hi)
end
callback rvalProd(lo, hi)
  use batch
  ensures [result] result == HP(lo, hi)
end
callback rvalJoin(lo, hi)
  use batch
  ensures [result] result == HJ(lo, hi)
end

// ---- contracts: variadic functions over the leaves [a,b)

macro forkjoin
  requires [indep] completed == 0
  decreases b - a
  effect exact [calls] started += b2i(in(K, a, b))
  effect own [join] done += b2i(in(K, a, b))
  effect own [join] completed += b - a
  ensures [panic] a < b ==> !Panics(a, b)
  raises [panic] a < b && Panics(a, b)
  raises [panic] root(val) == PV(a, b)
  raises [panic] is_error(val) <==> PE(a, b)
  raises [panic] is_error(val) ==> chain(val)
  raises [panic] val != nil
end

contract parallel.Do(thunks)
  family thunks: thunk
  let a = off(thunks)
  let b = off(thunks) + len(thunks)
  use forkjoin
end
contract parallel.And(predicates)
  family predicates: boolAnd
  let a = off(predicates)
  let b = off(predicates) + len(predicates)
  use forkjoin
  ensures [result] a < b ==> (result <==> HB(a, b))
  ensures [result] a == b ==> result
end
contract parallel.Or(predicates)
  family predicates: boolOr
  let a = off(predicates)
  let b = off(predicates) + len(predicates)
  use forkjoin
  ensures [result] a < b ==> (result <==> HO(a, b))
  ensures [result] a == b ==> !result
end
contract parallel.ReduceSum(functions)
  family functions: valSum
  let a = off(functions)
  let b = off(functions) + len(functions)
  use forkjoin
  ensures [result] a < b ==> result == HS(a, b)
  ensures [result] a == b ==> result == zero()
end
contract parallel.ReduceProduct(functions)
  family functions: valProd
  let a = off(functions)
  let b = off(functions) + len(functions)
  use forkjoin
  ensures [result] a < b ==> result == HP(a, b)
  ensures [result] a == b ==> result == one()
end
contract parallel.Reduce(join, firstFunction, moreFunctions)
  family moreFunctions: valJoin
  calls join: joinFn
  requires off(moreFunctions) >= 1
  alias firstFunction = at(moreFunctions, off(moreFunctions) - 1)
  let a = off(moreFunctions) - 1
  let b = off(moreFunctions) + len(moreFunctions)
  use forkjoin
  ensures [result] result == HJ(a, b)
  rec (functions)
  family functions: valJoin
  requires len(functions) >= 1
  let a = off(functions)
  let b = off(functions) + len(functions)
  use forkjoin
  ensures [result] result == HJ(a, b)
end

// ---- contracts: range functions

// what the recursive helper guarantees for the sub-range [lo,hi) and k batches
macro rangerec
  requires [indep] completed == 0
  requires [batch] LOW <= lo && hi <= HIGH && lo <= hi && (lo == hi ==> LOW == HIGH)
  requires [batch] 1 <= k && (lo == hi ==> k == 1)
  decreases k
  effect exact [calls] started += b2i(in(K, lo, hi))
  effect own [join] done += b2i(in(K, lo, hi))
  modifies completed
  modifies batches
  ensures [batch] old(batches) + 1 <= batches && batches <= old(batches) + k
  ensures [panic] !Panics(lo, hi)
  raises [panic] Panics(lo, hi)
  raises [panic] root(val) == PV(lo, hi)
  raises [panic] is_error(val) <==> PE(lo, hi)
  raises [panic] is_error(val) ==> chain(val)
  raises [panic] val != nil
  raises [batch] old(batches) <= batches && batches <= old(batches) + k
  ensures [batch] Q >= 1 && hi - lo == Q * k ==> batches == old(batches) + k
end
macro range
  requires LOW == low && HIGH == high
  requires 0 <= low || low > high || high - low <= 9223372036854775807
  requires [indep] completed == 0
  effect [calls] started += b2i(in(K, low, high))
  effect own [join] done += b2i(in(K, low, high))
  modifies completed
  modifies batches
  ensures [invalid] low <= high && 0 <= n
  ensures [batch] n >= 1 ==> batches <= old(batches) + max(1, min(n, high - low))
  ensures [batch] n >= 1 && Q >= 1 && high - low == Q * n ==> batches == old(batches) + n
  ensures [batch] low == high ==> batches == old(batches) + 1
  ensures [panic] !Panics(low, high)
  raises [panic] low <= high && 0 <= n ==> Panics(low, high)
  raises [panic] low <= high && 0 <= n ==> root(val) == PV(low, high)
  raises [panic] low <= high && 0 <= n ==> (is_error(val) <==> PE(low, high))
  raises [panic] low <= high && 0 <= n && is_error(val) ==> chain(val)
  raises [panic] val != nil
  raises [calls] low <= high && 0 <= n ==> started == old(started) + b2i(in(K, low, high))
  raises [invalid] low > high || n < 0 ==> started == old(started) && batches == old(batches)
end

contract parallel.Range(low, high, n, f)
  calls f: rthunk
  use range
  rec (lo, hi, k)
  use rangerec
end
contract parallel.RangeAnd(low, high, n, f)
  calls f: rboolAnd
  use range
  ensures [result] result <==> HB(low, high)
  rec (lo, hi, k)
  use rangerec
  ensures [result] result <==> HB(lo, hi)
end
contract parallel.RangeOr(low, high, n, f)
  calls f: rboolOr
  use range
  ensures [result] result <==> HO(low, high)
  rec (lo, hi, k)
  use rangerec
  ensures [result] result <==> HO(lo, hi)
end
contract parallel.RangeReduce(low, high, n, reduce, join)
  calls reduce: rvalJoin
  calls join: joinFn
  use range
  ensures [result] result == HJ(low, high)
  rec (lo, hi, k)
  use rangerec
  ensures [result] result == HJ(lo, hi)
end
contract parallel.RangeReduceSum(low, high, n, reduce)
  calls reduce: rvalSum
  use range
  ensures [result] result == HS(low, high)
  rec (lo, hi, k)
  use rangerec
  ensures [result] result == HS(lo, hi)
end
contract parallel.RangeReduceProduct(low, high, n, reduce)
  calls reduce: rvalProd
  use range
  ensures [result] result == HP(low, high)
  rec (lo, hi, k)
  use rangerec
  ensures [result] result == HP(lo, hi)
end
