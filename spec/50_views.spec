// Views of a model (raw scores, leaf indices) and the queries about a model; C14 collects the frame conditions.
package leaves

property C13 { leaves.(*Ensemble).EnsembleWithRawPredictions; leaves.(*Ensemble).EnsembleWithLeafPredictions; leaves.ensembleBaseInterface.Name;
  leaves.ensembleBaseInterface.NEstimators; leaves.ensembleBaseInterface.NRawOutputGroups; leaves.ensembleBaseInterface.NFeatures;
  leaves.ensembleBaseInterface.NLeaves; leaves.ensembleBaseInterface.predictInner; leaves.ensembleBaseInterface.predictLeafIndicesInner;
  leaves.ensembleBaseInterface.resetFVals; leaves.ensembleBaseInterface.adjustNEstimators;
  leaves.(*Ensemble).NOutputGroups; leaves.(*Ensemble).Transformation; leaves.(*Ensemble).predictInnerAndTransform?;
  lemma raw_view; lemma same_scores; lemma leaf_view; lemma same_model }

property C14 [frame race separation concurrency] {
  leaves.(*Ensemble).Predict; leaves.(*Ensemble).PredictSingle; leaves.(*Ensemble).PredictDense; leaves.(*Ensemble).PredictCSR;
  leaves.(*Ensemble).predictCSRInner?; leaves.(*Ensemble).predictInnerAndTransform?; leaves.(*Ensemble).checkNEstimators?;
  leaves.(*Ensemble).EnsembleWithRawPredictions; leaves.(*Ensemble).EnsembleWithLeafPredictions;
  leaves.(*Ensemble).NOutputGroups; leaves.(*Ensemble).Transformation;
  leaves.ensembleBaseInterface.Name; leaves.ensembleBaseInterface.NEstimators; leaves.ensembleBaseInterface.NRawOutputGroups;
  leaves.ensembleBaseInterface.NFeatures; leaves.ensembleBaseInterface.NLeaves; leaves.ensembleBaseInterface.adjustNEstimators;
  leaves.ensembleBaseInterface.predictInner; leaves.ensembleBaseInterface.predictLeafIndicesInner; leaves.ensembleBaseInterface.resetFVals;
  leaves.(*lgTree).predict; leaves.(*lgTree).decision; leaves.(*lgTree).numericalDecision?; leaves.(*lgTree).categoricalDecision?;
  leaves.(*lgTree).findInBitset?; leaves.(*lgTree).nLeaves?; util.FindInBitsetUint32?;
  transformation.Transform.Transform; transformation.Transform.NOutputGroups; transformation.Transform.Type; transformation.Transform.Name;
  util.SoftmaxFloat64Slice? }

rec ename(e any) string =
  if is(e, *lgEnsemble) then as(e, *lgEnsemble).name
  else if is(e, *xgEnsemble) then as(e, *xgEnsemble).name
  else if is(e, *xgLinear) then "xgboost.gblinear"
  else ename(as(e, *Ensemble).ensembleBaseInterface)

interface ensembleBaseInterface.Name(e)(s) {
  requires wf_model(e)
  ensures name: s == ename(e)
}
contract (*Ensemble).NOutputGroups(e)(n) {
  inline
  requires wf_ens(e)
  ensures outputs: n == tr_out(e.transform)
}
contract (*Ensemble).Transformation(e)(t) {
  inline
  requires wf_ens(e)
  ensures transform: t == e.transform
}

// r is a view of e with the same model behind it
fn view_of(r *Ensemble, e *Ensemble) bool = r != nil && r.ensembleBaseInterface == box(e)
fn same(r *Ensemble, e *Ensemble) bool =
  nest(r.ensembleBaseInterface) == nest(e.ensembleBaseInterface) && groups(r.ensembleBaseInterface) == groups(e.ensembleBaseInterface) &&
  nfeat(r.ensembleBaseInterface) == nfeat(e.ensembleBaseInterface) && ename(r.ensembleBaseInterface) == ename(e.ensembleBaseInterface) &&
  has_trees(r.ensembleBaseInterface) == has_trees(e.ensembleBaseInterface)

contract (*Ensemble).EnsembleWithRawPredictions(e)(r) {
  requires wf_ens(e)
  ensures usable: wf_ens(r)
  ensures view: view_of(r, e) && same(r, e)
  ensures raw: is(r.transform, *transformation.TransformRaw)
  ensures outputs: tr_out(r.transform) == groups(e.ensembleBaseInterface)
}
contract (*Ensemble).EnsembleWithLeafPredictions(e)(r) {
  requires wf_ens(e)
  ensures usable: wf_ens(r)
  ensures view: view_of(r, e) && same(r, e)
  ensures leaf: is(r.transform, *transformation.TransformLeafIndex)
  ensures outputs: tr_out(r.transform) == groups(e.ensembleBaseInterface) * nest(e.ensembleBaseInterface)
}

// what the views predict, in terms of the model they were made from
lemma raw_view(e *Ensemble, r *Ensemble, fvals []float64, n int, k int) {
  requires wf_ens(e) && wf_ens(r) && view_of(r, e) && is(r.transform, *transformation.TransformRaw)
  requires 0 <= k && k < tr_out(r.transform)
  ensures outval(r, fvals, n, k) == raw_score(r.ensembleBaseInterface, fvals, n, k)
}
lemma same_scores(e *Ensemble, r *Ensemble, fvals []float64, n int, k int) {
  requires view_of(r, e)
  ensures raw_score(r.ensembleBaseInterface, fvals, n, k) == raw_score(e.ensembleBaseInterface, fvals, n, k)
}
lemma leaf_view(e *Ensemble, r *Ensemble, fvals []float64, n int, i int, k int) {
  requires wf_ens(e) && wf_ens(r) && view_of(r, e) && is(r.transform, *transformation.TransformLeafIndex)
  requires 0 <= i && i < n && 0 <= k
  ensures outval(r, fvals, n, k * n + i) == float64(leaf_index(e.ensembleBaseInterface, fvals, i, k))
}
lemma same_model(e *Ensemble, r *Ensemble, n int) {
  requires wf_ens(e) && wf_ens(r) && view_of(r, e)
  ensures same(r, e) && used(r, n) == used(e, n) && missing_value(r.ensembleBaseInterface) == missing_value(e.ensembleBaseInterface)
}
