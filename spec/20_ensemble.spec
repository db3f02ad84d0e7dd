// Models (ensembles) behind ensembleBaseInterface: lgensemble.go, xgensemble.go, xgblinear.go and the wrapper Ensemble.
package leaves

property C04 { leaves.ensembleBaseInterface.predictInner; leaves.(*lgTree).predict }
property C05 { leaves.ensembleBaseInterface.predictInner }
property C06 { leaves.ensembleBaseInterface.adjustNEstimators; leaves.ensembleBaseInterface.NEstimators }
property C12 { leaves.ensembleBaseInterface.predictLeafIndicesInner; leaves.ensembleBaseInterface.NLeaves; leaves.(*lgTree).nLeaves?; leaves.(*lgTree).predict }

// ---- shape of a model ------------------------------------------------------------
rec groups(e any) int =
  if is(e, *lgEnsemble) then as(e, *lgEnsemble).nRawOutputGroups
  else if is(e, *xgEnsemble) then as(e, *xgEnsemble).nRawOutputGroups
  else if is(e, *xgLinear) then as(e, *xgLinear).nRawOutputGroups
  else groups(as(e, *Ensemble).ensembleBaseInterface)

rec nest(e any) int =
  if is(e, *lgEnsemble) then len(as(e, *lgEnsemble).Trees) / as(e, *lgEnsemble).nRawOutputGroups
  else if is(e, *xgEnsemble) then len(as(e, *xgEnsemble).Trees) / as(e, *xgEnsemble).nRawOutputGroups
  else if is(e, *xgLinear) then 1
  else nest(as(e, *Ensemble).ensembleBaseInterface)

fn max_feature(m int) int = if m >= 0 then m + 1 else 0

rec nfeat(e any) int =
  if is(e, *lgEnsemble) then max_feature(as(e, *lgEnsemble).MaxFeatureIdx)
  else if is(e, *xgEnsemble) then max_feature(as(e, *xgEnsemble).MaxFeatureIdx)
  else if is(e, *xgLinear) then as(e, *xgLinear).NumFeature
  else nfeat(as(e, *Ensemble).ensembleBaseInterface)

// models made of trees (everything but gblinear)
rec has_trees(e any) bool =
  if is(e, *lgEnsemble) then true
  else if is(e, *xgEnsemble) then true
  else if is(e, *xgLinear) then false
  else has_trees(as(e, *Ensemble).ensembleBaseInterface)

// what an absent feature is: NaN for XGBoost trees, 0.0 otherwise
rec missing_value(e any) float64 =
  if is(e, *lgEnsemble) then 0.0
  else if is(e, *xgEnsemble) then NaN
  else if is(e, *xgLinear) then 0.0
  else missing_value(as(e, *Ensemble).ensembleBaseInterface)

fn tree_at(e any, i int) *lgTree =
  if is(e, *lgEnsemble) then &as(e, *lgEnsemble).Trees[i] else &as(e, *xgEnsemble).Trees[i]

fn wf_lg(e *lgEnsemble) bool =
  e != nil && e.nRawOutputGroups >= 1 &&
  (forall i int :: 0 <= i && i < len(e.Trees) ==> wf_tree(&e.Trees[i], max_feature(e.MaxFeatureIdx)))
fn wf_xg(e *xgEnsemble) bool =
  e != nil && e.nRawOutputGroups >= 1 && len(e.WeightDrop) == len(e.Trees) &&
  (forall i int :: 0 <= i && i < len(e.Trees) ==> wf_tree(&e.Trees[i], max_feature(e.MaxFeatureIdx)))
fn wf_lin(e *xgLinear) bool =
  e != nil && e.nRawOutputGroups >= 1 && e.NumFeature >= 0 && len(e.Weights) == (e.NumFeature + 1) * e.nRawOutputGroups

// a well-formed model: one of the three kinds, possibly inside Ensemble wrappers
rec wf_model(e any) bool =
  if is(e, *lgEnsemble) then wf_lg(as(e, *lgEnsemble))
  else if is(e, *xgEnsemble) then wf_xg(as(e, *xgEnsemble))
  else if is(e, *xgLinear) then wf_lin(as(e, *xgLinear))
  else is(e, *Ensemble) && as(e, *Ensemble) != nil && as(e, *Ensemble).ensembleBaseInterface != nil && wf_model(as(e, *Ensemble).ensembleBaseInterface)

// ---- scores ---------------------------------------------------------------------------
fn lg_coef(e *lgEnsemble, n int) float64 = if e.averageOutput then 1.0 / float64(n) else 1.0

// sum over the first n estimators of group k, each tree output times its weight
rec lg_sum(e *lgEnsemble, fvals []float64, n int, k int, coef float64) float64 =
  if n <= 0 then 0.0
  else lg_sum(e, fvals, n - 1, k, coef) + tree_value(&e.Trees[(n - 1) * e.nRawOutputGroups + k], fvals) * coef

rec xg_sum(e *xgEnsemble, fvals []float64, n int, k int) float64 =
  if n <= 0 then e.BaseScore
  else xg_sum(e, fvals, n - 1, k) + tree_value(&e.Trees[(n - 1) * e.nRawOutputGroups + k], fvals) * e.WeightDrop[(n - 1) * e.nRawOutputGroups + k]

rec lin_sum(e *xgLinear, fvals []float64, n int, k int) float64 =
  if n <= 0 then e.BaseScore + float64(e.Weights[e.nRawOutputGroups * e.NumFeature + k])
  else lin_sum(e, fvals, n - 1, k) + fvals[n - 1] * float64(e.Weights[e.nRawOutputGroups * (n - 1) + k])

// raw score of group k for a row, using the first n estimators
rec raw_score(e any, fvals []float64, n int, k int) float64 =
  if is(e, *lgEnsemble) then lg_sum(as(e, *lgEnsemble), fvals, n, k, lg_coef(as(e, *lgEnsemble), n))
  else if is(e, *xgEnsemble) then xg_sum(as(e, *xgEnsemble), fvals, n, k)
  else if is(e, *xgLinear) then lin_sum(as(e, *xgLinear), fvals, as(e, *xgLinear).NumFeature, k)
  else raw_score(as(e, *Ensemble).ensembleBaseInterface, fvals, n, k)

// leaf reached in the tree of estimator i and group k
rec leaf_index(e any, fvals []float64, i int, k int) int =
  if is(e, *lgEnsemble) then tree_leaf(&as(e, *lgEnsemble).Trees[i * as(e, *lgEnsemble).nRawOutputGroups + k], fvals)
  else if is(e, *xgEnsemble) then tree_leaf(&as(e, *xgEnsemble).Trees[i * as(e, *xgEnsemble).nRawOutputGroups + k], fvals)
  else leaf_index(as(e, *Ensemble).ensembleBaseInterface, fvals, i, k)

rec leaf_count(e any, i int, k int) int =
  if is(e, *lgEnsemble) then len(as(e, *lgEnsemble).Trees[i * as(e, *lgEnsemble).nRawOutputGroups + k].nodes) + 1
  else if is(e, *xgEnsemble) then len(as(e, *xgEnsemble).Trees[i * as(e, *xgEnsemble).nRawOutputGroups + k].nodes) + 1
  else leaf_count(as(e, *Ensemble).ensembleBaseInterface, i, k)

// ---- arithmetic -------------------------------------------------------------------------
// slot (i, k) of an n-by-g table lies inside the table
lemma slot(i int, k int, n int, g int) {
  requires 0 <= i && i < n && 0 <= k && k < g
  ensures 0 <= i * g && 0 <= i * g + k && i * g + k < n * g
}
// different pairs have different slots
lemma slot_inj(i int, k int, j int, l int, g int) {
  requires 0 <= k && k < g && 0 <= l && l < g && i != j
  ensures i * g + k != j * g + l
  cases i < j
}
lemma div_bound(a int, b int) {
  requires 0 <= a && 1 <= b
  ensures 0 <= a / b && (a / b) * b <= a
}

// ---- contracts ------------------------------------------------------------------------------
interface ensembleBaseInterface.NEstimators(e)(n) {
  props C06
  requires wf_model(e)
  ensures count: n == nest(e)
  ensures nonneg: n >= 0
}
interface ensembleBaseInterface.NRawOutputGroups(e)(n) {
  requires wf_model(e)
  ensures count: n == groups(e)
  ensures pos: n >= 1
}
interface ensembleBaseInterface.NFeatures(e)(n) {
  requires wf_model(e)
  ensures count: n == nfeat(e)
  ensures nonneg: n >= 0
}
interface ensembleBaseInterface.NLeaves(e)(r) {
  props C12
  requires wf_model(e)
  ensures size: has_trees(e) ==> len(r) == groups(e) * nest(e)
  ensures layout: has_trees(e) ==> (forall i int, k int :: 0 <= i && i < nest(e) && 0 <= k && k < groups(e) ==> r[k * nest(e) + i] == leaf_count(e, i, k))
  ensures linear: !has_trees(e) ==> len(r) == 0
  loop 1 {
    inv done: forall i int, k int :: 0 <= i && i < $i && 0 <= k && k < groups(e) ==> nleaves[k * nest(e) + i] == leaf_count(e, i, k)
  }
  loop 2 {
    inv done: forall i int, k int :: 0 <= i && i < $1 && 0 <= k && k < groups(e) ==> nleaves[k * nest(e) + i] == leaf_count(e, i, k)
    inv row: forall k int :: 0 <= k && k < $i ==> nleaves[k * nest(e) + $1] == leaf_count(e, $1, k)
  }
}
// non-positive or too large means all estimators, otherwise exactly that many
fn adjusted(e any, n int) int = if n > 0 && n < nest(e) then n else nest(e)

interface ensembleBaseInterface.adjustNEstimators(e, nEstimators)(n) {
  props C06
  requires wf_model(e)
  ensures prefix: n == adjusted(e, nEstimators)
  ensures range: 0 <= n && n <= nest(e)
}
interface ensembleBaseInterface.resetFVals(e, fvals) {
  props C08
  region fvals F
  requires wf_model(e)
  ensures missing: forall j int :: 0 <= j && j < len(fvals) ==> fvals[j] == missing_value(e)
  modifies fvals[0..len(fvals)]
  loop 1 {
    inv done: forall j int :: 0 <= j && j < $i ==> fvals[j] == missing_value(e)
  }
}
interface ensembleBaseInterface.predictInner(e, fvals, nEstimators, predictions, startIndex) {
  props C04 C05
  region predictions P
  requires wf_model(e)
  requires len(fvals) >= nfeat(e)
  requires 0 <= nEstimators && nEstimators <= nest(e)
  requires 0 <= startIndex && startIndex + groups(e) <= len(predictions)
  ensures scores: forall k int :: 0 <= k && k < groups(e) ==> predictions[startIndex + k] == raw_score(e, fvals, nEstimators, k)
  modifies predictions[startIndex .. startIndex + groups(e)]
  loop 1 for lgEnsemble {
    inv zero: forall k int :: 0 <= k && k < $i ==> predictions[startIndex + k] == 0.0
  }
  loop 2 for lgEnsemble {
    inv sums: forall k int :: 0 <= k && k < groups(e) ==> predictions[startIndex + k] == lg_sum(as(e, *lgEnsemble), fvals, $i, k, lg_coef(as(e, *lgEnsemble), nEstimators))
  }
  loop 3 for lgEnsemble {
    use slot($1, $i, nest(e), groups(e))
    inv done: forall k int :: 0 <= k && k < $i ==> predictions[startIndex + k] == lg_sum(as(e, *lgEnsemble), fvals, $1 + 1, k, lg_coef(as(e, *lgEnsemble), nEstimators))
    inv todo: forall k int :: $i <= k && k < groups(e) ==> predictions[startIndex + k] == lg_sum(as(e, *lgEnsemble), fvals, $1, k, lg_coef(as(e, *lgEnsemble), nEstimators))
  }
  loop 1 for xgEnsemble {
    inv base: forall k int :: 0 <= k && k < $i ==> predictions[startIndex + k] == as(e, *xgEnsemble).BaseScore
  }
  loop 2 for xgEnsemble {
    inv sums: forall k int :: 0 <= k && k < groups(e) ==> predictions[startIndex + k] == xg_sum(as(e, *xgEnsemble), fvals, $i, k)
  }
  loop 3 for xgEnsemble {
    use slot($1, $i, nest(e), groups(e))
    inv done: forall k int :: 0 <= k && k < $i ==> predictions[startIndex + k] == xg_sum(as(e, *xgEnsemble), fvals, $1 + 1, k)
    inv todo: forall k int :: $i <= k && k < groups(e) ==> predictions[startIndex + k] == xg_sum(as(e, *xgEnsemble), fvals, $1, k)
  }
  loop 1 for xgLinear {
    use slot(as(e, *xgLinear).NumFeature, $i, as(e, *xgLinear).NumFeature + 1, groups(e))
    inv done: forall k int :: 0 <= k && k < $i ==> predictions[startIndex + k] == lin_sum(as(e, *xgLinear), fvals, as(e, *xgLinear).NumFeature, k)
  }
  loop 2 for xgLinear {
    use slot($i, $1, as(e, *xgLinear).NumFeature + 1, groups(e))
    inv done: forall k int :: 0 <= k && k < $1 ==> predictions[startIndex + k] == lin_sum(as(e, *xgLinear), fvals, as(e, *xgLinear).NumFeature, k)
    inv sum: predictions[startIndex + $1] == lin_sum(as(e, *xgLinear), fvals, $i, $1)
  }
}

interface ensembleBaseInterface.predictLeafIndicesInner(e, fvals, nEstimators, predictions, startIndex) {
  props C12
  region predictions P
  requires wf_model(e)
  requires len(fvals) >= nfeat(e)
  requires 0 <= nEstimators && nEstimators <= nest(e)
  requires 0 <= startIndex && startIndex + groups(e) * nEstimators <= len(predictions)
  ensures leaves: has_trees(e) ==> (forall i int, k int :: 0 <= i && i < nEstimators && 0 <= k && k < groups(e) ==>
     predictions[startIndex + k * nEstimators + i] == float64(leaf_index(e, fvals, i, k)))
  modifies predictions[startIndex .. startIndex + groups(e) * nEstimators]
  loop 2 {
    inv done: forall i int, k int :: 0 <= i && i < $i && 0 <= k && k < groups(e) ==>
      predictions[startIndex + k * nEstimators + i] == float64(leaf_index(e, fvals, i, k))
  }
  loop 3 {
    use slot($1, $i, nest(e), groups(e))
    use slot($i, $1, groups(e), nEstimators)
    inv done: forall i int, k int :: 0 <= i && i < $1 && 0 <= k && k < groups(e) ==>
      predictions[startIndex + k * nEstimators + i] == float64(leaf_index(e, fvals, i, k))
    inv row: forall k int :: 0 <= k && k < $i ==>
      predictions[startIndex + k * nEstimators + $1] == float64(leaf_index(e, fvals, $1, k))
  }
}
