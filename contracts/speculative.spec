// Contracts of package speculative.
//
// Specification functions over leaves (functions of a variadic call, batches
// of a range call):
//   EV(a,b)  what happens first, from left to right, in [a,b):
//            0 nothing, 1 a deciding result, 2 a panic
//   SV(a,b)  the deciding value (EV = 1) or the combined value (EV = 0)
//   PV, PE   value of that panic, and whether it is an error (EV = 2)
//   DE(a,b)  the leaves [a,DE) are those that must have finished to know it
// EJ is EV with deciding joins (Reduce, RangeReduce).
const K Int
const LOW Int
const HIGH Int
// an arbitrary batch size: when the size of a range is Q*k, k batches of size Q are made
const Q Int
axiom forall x, k {x / k} :: 1 <= k && 1 <= Q && x == Q * k - 1 ==> x / k == Q - 1
ghost started, batches
ghost own done, own completed

logic EV(Int,Int) Int
logic EJ(Int,Int) Int
logic SV(Int,Int) U
logic PV(Int,Int) U
logic PE(Int,Int) Bool
logic DE(Int,Int) Int
logic DJ(Int,Int) Int
logic joinV(U,U) U
logic joinB(U,U) Bool

axiom forall a, b {EV(a,b)} :: 0 <= EV(a,b) && EV(a,b) <= 2
axiom forall a, b {EJ(a,b)} :: 0 <= EJ(a,b) && EJ(a,b) <= 2
axiom forall a, b {DE(a,b)} :: a < b ==> a < DE(a,b) && DE(a,b) <= b && (EV(a,b) == 0 ==> DE(a,b) == b)
axiom forall a, b {DE(a,b)} :: a >= b ==> DE(a,b) == b
axiom forall a, b {DJ(a,b)} :: a < b ==> a < DJ(a,b) && DJ(a,b) <= b && (EJ(a,b) == 0 ==> DJ(a,b) == b)
axiom forall a, b {DJ(a,b)} :: a >= b ==> DJ(a,b) == b
axiom forall a {DE(a,a+1)} :: DE(a,a+1) == a+1
axiom forall a {DJ(a,a+1)} :: DJ(a,a+1) == a+1

axiom forall a, b, c {EV(a,b), EV(a,c)} :: a < b && b < c && EV(a,b) != 0 ==> EV(a,c) == EV(a,b) && DE(a,c) == DE(a,b) && PV(a,c) == PV(a,b) && (PE(a,c) <==> PE(a,b))
axiom forall a, b, c {EV(a,b), EV(b,c)} :: a < b && b < c && EV(a,b) != 0 ==> EV(a,c) == EV(a,b) && DE(a,c) == DE(a,b) && PV(a,c) == PV(a,b) && (PE(a,c) <==> PE(a,b))
axiom forall a, b, c {EV(a,b), EV(b,c)} :: a < b && b < c && EV(a,b) == 0 ==> EV(a,c) == EV(b,c) && DE(a,c) == DE(b,c) && PV(a,c) == PV(b,c) && (PE(a,c) <==> PE(b,c))

axiom forall a, b, c {EJ(a,b), EJ(a,c)} :: a < b && b < c && EJ(a,b) != 0 ==> EJ(a,c) == EJ(a,b) && SV(a,c) == SV(a,b) && DJ(a,c) == DJ(a,b) && PV(a,c) == PV(a,b) && (PE(a,c) <==> PE(a,b))
axiom forall a, b, c {EJ(a,b), EJ(b,c)} :: a < b && b < c && EJ(a,b) != 0 ==> EJ(a,c) == EJ(a,b) && SV(a,c) == SV(a,b) && DJ(a,c) == DJ(a,b) && PV(a,c) == PV(a,b) && (PE(a,c) <==> PE(a,b))
axiom forall a, b, c {EJ(a,b), EJ(b,c)} :: a < b && b < c && EJ(a,b) == 0 && EJ(b,c) != 0 ==> EJ(a,c) == EJ(b,c) && SV(a,c) == SV(b,c) && DJ(a,c) == DJ(b,c) && PV(a,c) == PV(b,c) && (PE(a,c) <==> PE(b,c))
axiom forall a, b, c {EJ(a,b), EJ(b,c)} :: a < b && b < c && EJ(a,b) == 0 && EJ(b,c) == 0 ==> EJ(a,c) == b2i(joinB(SV(a,b), SV(b,c))) && SV(a,c) == joinV(SV(a,b), SV(b,c)) && DJ(a,c) == c

// ---- client functions

macro leaf
  requires [indep] completed == 0
  effect exact [calls] started += b2i(i == K)
  effect own exact [join] done += b2i(i == K)
  effect own [join] completed += 1
end
macro evPanic
  raises [panic] root(val) == PV(a, b) && (is_error(val) <==> PE(a, b)) && (is_error(val) ==> chain(val)) && val != nil
end
callback sbool(i)
  let a = i
  let b = i + 1
  use leaf
  ensures [result] EV(i, i+1) == ite(result, 1, 0)
  raises [panic] EV(i, i+1) == 2
  use evPanic
end
callback sand(i)
  let a = i
  let b = i + 1
  use leaf
  ensures [result] EV(i, i+1) == ite(result, 0, 1)
  raises [panic] EV(i, i+1) == 2
  use evPanic
end
callback sval(i)
  let a = i
  let b = i + 1
  use leaf
  ensures [result] EJ(i, i+1) == ite(result2, 1, 0)
  ensures [result] result == SV(i, i+1)
  raises [panic] EJ(i, i+1) == 2
  use evPanic
end
callback sjoin(x, y)
  ensures [result] result == joinV(x, y)
  ensures [result] result2 <==> joinB(x, y)
end

macro batch
  let a = lo
  let b = hi
  requires [indep] completed == 0
  requires [batch] LOW <= lo && hi <= HIGH && lo <= hi && (lo == hi ==> LOW == HIGH)
  effect exact [calls] started += b2i(in(K, lo, hi))
  effect [batch] batches += 1
  effect own exact [join] done += b2i(in(K, lo, hi))
  effect own [join] completed += 1
end
callback rbool(lo, hi)
  use batch
  ensures [result] EV(lo, hi) == ite(result, 1, 0)
  ensures [result] DE(lo, hi) == hi
  raises [panic] EV(lo, hi) == 2 && DE(lo, hi) == hi
  use evPanic
end
callback rand(lo, hi)
  use batch
  ensures [result] EV(lo, hi) == ite(result, 0, 1)
  ensures [result] DE(lo, hi) == hi
  raises [panic] EV(lo, hi) == 2 && DE(lo, hi) == hi
  use evPanic
end
callback rval(lo, hi)
  use batch
  ensures [result] EJ(lo, hi) == ite(result2, 1, 0)
  ensures [result] result == SV(lo, hi)
  ensures [result] DJ(lo, hi) == hi
  raises [panic] EJ(lo, hi) == 2 && DJ(lo, hi) == hi
  use evPanic
end

// ---- variadic functions over the leaves [a,b)

macro forkjoin
  requires [indep] completed == 0
  decreases b - a
  effect exact [calls] started += b2i(in(K, a, b))
  modifies completed
end
macro forkE
  use forkjoin
  effect own exact [early] done += b2i(in(K, a, DE(a, b)))
  raises [panic] a < b && EV(a, b) == 2
  use evPanic
end
macro forkJ
  use forkjoin
  effect own exact [early] done += b2i(in(K, a, DJ(a, b)))
  raises [panic] a < b && EJ(a, b) == 2
  use evPanic
end

contract speculative.Do(thunks)
  family thunks: sbool
  let a = off(thunks)
  let b = off(thunks) + len(thunks)
  use forkE
  ensures [result] a < b ==> EV(a, b) == ite(result, 1, 0)
  ensures [result] a == b ==> !result
end
contract speculative.And(predicates)
  family predicates: sand
  let a = off(predicates)
  let b = off(predicates) + len(predicates)
  use forkE
  ensures [result] a < b ==> EV(a, b) == ite(result, 0, 1)
  ensures [result] a == b ==> result
end
contract speculative.Or(predicates)
  family predicates: sbool
  let a = off(predicates)
  let b = off(predicates) + len(predicates)
  use forkE
  ensures [result] a < b ==> EV(a, b) == ite(result, 1, 0)
  ensures [result] a == b ==> !result
end
contract speculative.Reduce(join, firstFunction, moreFunctions)
  family moreFunctions: sval
  calls join: sjoin
  requires off(moreFunctions) >= 1
  alias firstFunction = at(moreFunctions, off(moreFunctions) - 1)
  let a = off(moreFunctions) - 1
  let b = off(moreFunctions) + len(moreFunctions)
  use forkJ
  ensures [result] EJ(a, b) == ite(result2, 1, 0)
  ensures [result] result == SV(a, b)
  rec (functions)
  family functions: sval
  requires len(functions) >= 1
  let a = off(functions)
  let b = off(functions) + len(functions)
  use forkJ
  ensures [result] EJ(a, b) == ite(result2, 1, 0)
  ensures [result] result == SV(a, b)
end

// ---- range functions

macro rangerec
  let a = lo
  let b = hi
  requires [indep] completed == 0
  requires [batch] LOW <= lo && hi <= HIGH && lo <= hi && (lo == hi ==> LOW == HIGH)
  requires [batch] 1 <= k && (lo == hi ==> k == 1)
  decreases k
  effect exact [calls] started += b2i(in(K, lo, hi))
  modifies completed
  modifies batches
  ensures [batch] old(batches) + 1 <= batches && batches <= old(batches) + k
  raises [batch] old(batches) + 1 <= batches && batches <= old(batches) + k
  ensures [batch] Q >= 1 && hi - lo == Q * k ==> batches == old(batches) + k
  raises [batch] Q >= 1 && hi - lo == Q * k ==> batches == old(batches) + k
end
macro rangerecE
  use rangerec
  effect own exact [early] done += b2i(in(K, lo, DE(lo, hi)))
  raises [panic] EV(lo, hi) == 2
  use evPanic
end
macro rangerecJ
  use rangerec
  effect own exact [early] done += b2i(in(K, lo, DJ(lo, hi)))
  raises [panic] EJ(lo, hi) == 2
  use evPanic
end
macro range
  let a = low
  let b = high
  requires LOW == low && HIGH == high
  requires 0 <= low || low > high || high - low <= 9223372036854775807
  requires [indep] completed == 0
  effect [calls] started += b2i(in(K, low, high))
  modifies completed
  modifies batches
  ensures [invalid] low <= high && 0 <= n
  ensures [batch] n >= 1 ==> batches <= old(batches) + max(1, min(n, high - low))
  ensures [batch] n >= 1 && Q >= 1 && high - low == Q * n ==> batches == old(batches) + n
  ensures [batch] low == high ==> batches == old(batches) + 1
  raises [calls] low <= high && 0 <= n ==> started == old(started) + b2i(in(K, low, high))
  raises [invalid] low > high || n < 0 ==> started == old(started) && batches == old(batches)
  raises [panic] val != nil
  raises [panic] low <= high && 0 <= n ==> root(val) == PV(low, high)
  raises [panic] low <= high && 0 <= n ==> (is_error(val) <==> PE(low, high))
  raises [panic] low <= high && 0 <= n && is_error(val) ==> chain(val)
end
macro rangeE
  use range
  effect own [early] done += b2i(in(K, low, DE(low, high)))
  raises [panic] low <= high && 0 <= n ==> EV(low, high) == 2
end
macro rangeJ
  use range
  effect own [early] done += b2i(in(K, low, DJ(low, high)))
  raises [panic] low <= high && 0 <= n ==> EJ(low, high) == 2
end
contract speculative.Range(low, high, n, f)
  calls f: rbool
  use rangeE
  ensures [result] EV(low, high) == ite(result, 1, 0)
  rec (lo, hi, k)
  use rangerecE
  ensures [result] EV(lo, hi) == ite(result, 1, 0)
end
contract speculative.RangeAnd(low, high, n, f)
  calls f: rand
  use rangeE
  ensures [result] EV(low, high) == ite(result, 0, 1)
  rec (lo, hi, k)
  use rangerecE
  ensures [result] EV(lo, hi) == ite(result, 0, 1)
end
contract speculative.RangeOr(low, high, n, f)
  calls f: rbool
  use rangeE
  ensures [result] EV(low, high) == ite(result, 1, 0)
  rec (lo, hi, k)
  use rangerecE
  ensures [result] EV(lo, hi) == ite(result, 1, 0)
end
contract speculative.RangeReduce(low, high, n, reduce, join)
  calls reduce: rval
  calls join: sjoin
  use rangeJ
  ensures [result] EJ(low, high) == ite(result2, 1, 0)
  ensures [result] result == SV(low, high)
  rec (lo, hi, k)
  use rangerecJ
  ensures [result] EJ(lo, hi) == ite(result2, 1, 0)
  ensures [result] result == SV(lo, hi)
end
