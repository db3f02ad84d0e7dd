// Output transformations (transformation/*, util softmax and sigmoid).
package transformation

property C10 { transformation.Transform.Transform; transformation.Transform.NOutputGroups; transformation.Transform.Type;
  transformation.Transform.Name; transformation.(TransformType).Name? }
property C11 { util.SoftmaxFloat64Slice?; transformation.Transform.Transform; lemma softmax_prob }

// a usable transformation: one of the five kinds, not a nil pointer
fn wf_tr(t any) bool =
  (is(t, *TransformRaw) && as(t, *TransformRaw) != nil) || (is(t, *TransformLogistic) && as(t, *TransformLogistic) != nil) ||
  (is(t, *TransformSoftmax) && as(t, *TransformSoftmax) != nil) || (is(t, *TransformLeafIndex) && as(t, *TransformLeafIndex) != nil) ||
  (is(t, *TransformExponential) && as(t, *TransformExponential) != nil)

fn tr_type(t any) int =
  if is(t, *TransformRaw) then Raw else if is(t, *TransformLogistic) then Logistic
  else if is(t, *TransformSoftmax) then Softmax else if is(t, *TransformLeafIndex) then LeafIndex else Exponential

// number of outputs
fn tr_out(t any) int =
  if is(t, *TransformRaw) then as(t, *TransformRaw).NumOutputGroups
  else if is(t, *TransformSoftmax) then as(t, *TransformSoftmax).NClasses
  else if is(t, *TransformLeafIndex) then as(t, *TransformLeafIndex).NumOutputGroups
  else 1

// does it take n raw scores?
fn tr_ok(t any, n int) bool =
  if is(t, *TransformLogistic) || is(t, *TransformExponential) then n == 1
  else if is(t, *TransformSoftmax) then n == as(t, *TransformSoftmax).NClasses
  else true

fn sigmoid(x float64) float64 = 1.0 / (1.0 + exp(-x))

// largest of the first n values
rec smax(v []float64, n int) float64 =
  if n <= 1 then v[0] else if v[n - 1] > smax(v, n - 1) then v[n - 1] else smax(v, n - 1)
// sum of exp(v[i] - m) over the first n values
rec ssum(v []float64, n int, m float64) float64 =
  if n <= 0 then 0.0 else ssum(v, n - 1, m) + exp(v[n - 1] - m)

// component i of softmax: exp(v[i] - max) / sum, computed by the reciprocal
fn softmax_at(v []float64, i int) float64 =
  let m = smax(v, len(v)) in
  let s = ssum(v, len(v), m) in
  if feq(s, 0.0) then exp(v[i] - m) else exp(v[i] - m) * (1.0 / s)

// value k written by a transformation
fn tr_val(t any, raw []float64, k int) float64 =
  if is(t, *TransformLogistic) then sigmoid(raw[k])
  else if is(t, *TransformExponential) then exp(raw[k])
  else if is(t, *TransformSoftmax) then softmax_at(raw, k)
  else raw[k]

fn type_name(t int) string =
  if t == Raw then "raw" else if t == Logistic then "logistic" else if t == Softmax then "softmax"
  else if t == LeafIndex then "leaf_index" else if t == Exponential then "exponential" else "unknown"

// ---- softmax gives probabilities (C11) ------------------------------------------
fn finite(x float64) bool = x > -inf && x < inf
fn all_finite(v []float64) bool = forall j int :: 0 <= j && j < len(v) ==> finite(v[j])

lemma fp_sub(a float64, b float64) {
  mode fp
  requires finite(a) && finite(b) && a <= b
  ensures a - b <= 0.0
}
lemma fp_sub_self(a float64) {
  mode fp
  requires finite(a)
  ensures feq(a - a, 0.0)
}
lemma fp_add(a float64, b float64) {
  mode fp
  requires 0.0 <= a && 0.0 <= b
  ensures 0.0 <= a + b && a <= a + b && b <= a + b
}
lemma fp_inv(a float64) {
  mode fp
  requires 1.0 <= a
  ensures 0.0 <= 1.0 / a && 1.0 / a <= 1.0 && !feq(a, 0.0)
}
lemma fp_mul(a float64, b float64) {
  mode fp
  requires 0.0 <= a && a <= 1.0 && 0.0 <= b && b <= 1.0
  ensures 0.0 <= a * b && a * b <= 1.0
}
lemma fp_order(a float64, b float64, c float64) {
  mode fp
  ensures (a <= b && b <= c ==> a <= c) && (a < b && b <= c ==> a < c) && (a <= b && b < c ==> a < c)
  ensures finite(a) ==> a <= a
  ensures (finite(a) && finite(b) ==> a <= b || b < a) && (a < b ==> a <= b) && (a < c ==> a <= c)
}
axiom exp_unit(x float64) {
  because "math.Exp of a non-positive number is between 0 and 1"
  requires x <= 0.0
  ensures 0.0 <= exp(x) && exp(x) <= 1.0
}
axiom exp_zero(x float64) {
  because "math.Exp of zero is 1"
  requires feq(x, 0.0)
  ensures exp(x) == 1.0
}
lemma one_le_one() {
  mode fp
  ensures 0.0 <= 0.0 && 1.0 <= 1.0 && 0.0 <= 1.0
}
// the maximum is one of the values and no value is larger
lemma smax_bounds(v []float64, n int) {
  requires 1 <= n && n <= len(v) && all_finite(v)
  decreases n
  use n > 1 ==> smax_bounds(v, n - 1)
  use forall j int :: fp_order(v[j], smax(v, n - 1), v[n - 1])
  use fp_order(v[n - 1], smax(v, n - 1), v[n - 1])
  use fp_order(v[n - 1], v[n - 1], v[n - 1])
  ensures finite(smax(v, n))
  ensures forall j int :: 0 <= j && j < n ==> v[j] <= smax(v, n)
  ensures exists j int :: 0 <= j && j < n && v[j] == smax(v, n)
}
// each partial sum is not negative, and at least 1 once the maximum is included
lemma ssum_bounds(v []float64, n int, m float64) {
  requires 0 <= n && n <= len(v) && all_finite(v) && finite(m)
  requires forall j int :: 0 <= j && j < len(v) ==> v[j] <= m
  decreases n
  use n > 0 ==> ssum_bounds(v, n - 1, m)
  use one_le_one()
  use fp_sub(v[n - 1], m)
  use fp_sub_self(m)
  use exp_unit(v[n - 1] - m)
  use exp_zero(v[n - 1] - m)
  use fp_add(ssum(v, n - 1, m), exp(v[n - 1] - m))
  use fp_order(1.0, ssum(v, n - 1, m), ssum(v, n, m))
  ensures 0.0 <= ssum(v, n, m)
  ensures (exists j int :: 0 <= j && j < n && v[j] == m) ==> 1.0 <= ssum(v, n, m)
}
lemma softmax_prob(v []float64, i int) {
  requires 0 <= i && i < len(v) && all_finite(v)
  use smax_bounds(v, len(v))
  use ssum_bounds(v, len(v), smax(v, len(v)))
  use fp_sub(v[i], smax(v, len(v)))
  use exp_unit(v[i] - smax(v, len(v)))
  use fp_inv(ssum(v, len(v), smax(v, len(v))))
  use fp_mul(exp(v[i] - smax(v, len(v))), 1.0 / ssum(v, len(v), smax(v, len(v))))
  ensures 0.0 <= softmax_at(v, i) && softmax_at(v, i) <= 1.0
}

contract util.SoftmaxFloat64Slice(rawValues, outputValues, startIndex) {
  props C10 C11
  region outputValues P
  requires 0 <= startIndex && startIndex + len(rawValues) <= len(outputValues)
  ensures softmax: forall k int :: 0 <= k && k < len(rawValues) ==> outputValues[startIndex + k] == softmax_at(rawValues, k)
  use forall i int :: softmax_prob(rawValues, i)
  ensures probabilities[C11]: all_finite(rawValues) ==> (forall k int :: 0 <= k && k < len(rawValues) ==> 0.0 <= outputValues[startIndex + k] && outputValues[startIndex + k] <= 1.0)
  modifies outputValues[startIndex .. startIndex + len(rawValues)]
  loop 1 {
    inv largest: max == smax(rawValues, $i)
  }
  loop 2 {
    inv exps: forall k int :: 0 <= k && k < $i ==> outputValues[startIndex + k] == exp(rawValues[k] - smax(rawValues, len(rawValues)))
    inv sum: sum == ssum(rawValues, $i, smax(rawValues, len(rawValues)))
  }
  loop 3 {
    inv scaled: forall k int :: 0 <= k && k < $i ==> outputValues[startIndex + k] == softmax_at(rawValues, k)
    inv rest: forall k int :: $i <= k && k < len(rawValues) ==> outputValues[startIndex + k] == exp(rawValues[k] - smax(rawValues, len(rawValues)))
  }
}

interface Transform.NOutputGroups(t)(n) {
  props C10
  requires wf_tr(t)
  ensures count: n == tr_out(t)
}
interface Transform.Type(t)(k) {
  props C10
  requires wf_tr(t)
  ensures type: k == tr_type(t)
}
interface Transform.Name(t)(s) {
  props C10
  requires wf_tr(t)
  ensures name: s == type_name(tr_type(t))
}
contract (TransformType).Name(t)(s) {
  props C10
  ensures name: s == type_name(t)
}
interface Transform.Transform(t, rawPredictions, outputPredictions, startIndex)(err) {
  props C10 C11
  region outputPredictions P
  requires wf_tr(t)
  requires 0 <= startIndex
  requires tr_ok(t, len(rawPredictions)) ==> startIndex + len(rawPredictions) <= len(outputPredictions)
  ensures refused: (err != nil) <==> !tr_ok(t, len(rawPredictions))
  ensures values: tr_ok(t, len(rawPredictions)) ==>
    (forall k int :: 0 <= k && k < len(rawPredictions) ==> outputPredictions[startIndex + k] == tr_val(t, rawPredictions, k))
  use forall i int :: softmax_prob(rawPredictions, i)
  ensures probabilities[C11]: is(t, *TransformSoftmax) && tr_ok(t, len(rawPredictions)) && all_finite(rawPredictions) ==>
    (forall k int :: 0 <= k && k < len(rawPredictions) ==> 0.0 <= outputPredictions[startIndex + k] && outputPredictions[startIndex + k] <= 1.0)
  modifies outputPredictions[startIndex .. startIndex + (if tr_ok(t, len(rawPredictions)) then len(rawPredictions) else 0)]
  loop 1 {
    inv copied: forall k int :: 0 <= k && k < $i ==> outputPredictions[startIndex + k] == rawPredictions[k]
  }
}
