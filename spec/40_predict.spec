// Prediction calls of the wrapper Ensemble (leaves.go).
package leaves

property C06 { leaves.(*Ensemble).Predict; leaves.(*Ensemble).PredictSingle; leaves.(*Ensemble).checkNEstimators? }
property C07 { leaves.(*Ensemble).PredictDense; leaves.(*Ensemble).predictInnerAndTransform? }
property C08 { leaves.(*Ensemble).PredictCSR; leaves.(*Ensemble).predictCSRInner?; leaves.(*Ensemble).predictInnerAndTransform?; leaves.ensembleBaseInterface.resetFVals }
property C09 { leaves.(*Ensemble).Predict; leaves.(*Ensemble).PredictSingle; leaves.(*Ensemble).PredictDense; leaves.(*Ensemble).PredictCSR;
  leaves.(*Ensemble).checkNEstimators?; leaves.ensembleBaseInterface.NFeatures }

// a usable model: the transformation fits the number of raw scores
fn wf_ens(e *Ensemble) bool =
  e != nil && e.ensembleBaseInterface != nil && wf_model(e.ensembleBaseInterface) && wf_tr(e.transform) &&
  tr_out(e.transform) >= 0 && tr_out(e.transform) == (if is_leaf(e) then groups(e.ensembleBaseInterface) * nest(e.ensembleBaseInterface) else groups(e.ensembleBaseInterface))

fn is_leaf(e *Ensemble) bool = is(e.transform, *transformation.TransformLeafIndex)
// leaf indices exist
fn has_output(e *Ensemble) bool = is_leaf(e) ==> has_trees(e.ensembleBaseInterface)

seq raw_row(e any, fvals []float64, n int) []float64 [k < groups(e)] = raw_score(e, fvals, n, k)

// output k of a row, using the first n estimators
fn outval(e *Ensemble, fvals []float64, n int, k int) float64 =
  if is_leaf(e) then float64(leaf_index(e.ensembleBaseInterface, fvals, k % n, k / n))
  else tr_val(e.transform, raw_row(e.ensembleBaseInterface, fvals, n), k)

// estimators used, and whether the call is refused because of them
fn used(e *Ensemble, n int) int = adjusted(e.ensembleBaseInterface, n)
fn partial_leaves(e *Ensemble, n int) bool = is_leaf(e) && used(e, n) != nest(e.ensembleBaseInterface)

lemma divmod(k int, n int, g int) {
  requires 0 <= k && k < g * n && 0 <= n
  ensures 1 <= n
  ensures 0 <= k / n && 0 <= k % n && k % n < n
  ensures (k / n) * n + k % n == k
  ensures k / n < g
}

contract (*Ensemble).predictInnerAndTransform(e, fvals, nEstimators, predictions, startIndex) {
  props C04 C05 C06 C07 C08 C12
  region predictions P
  requires wf_ens(e)
  requires len(fvals) >= nfeat(e.ensembleBaseInterface)
  requires 0 <= nEstimators && nEstimators <= nest(e.ensembleBaseInterface)
  requires is_leaf(e) ==> nEstimators == nest(e.ensembleBaseInterface)
  requires 0 <= startIndex && startIndex + tr_out(e.transform) <= len(predictions)
  use forall k int :: divmod(k, nEstimators, groups(e.ensembleBaseInterface))
  ensures output: has_output(e) ==> (forall k int :: 0 <= k && k < tr_out(e.transform) ==> predictions[startIndex + k] == outval(e, fvals, nEstimators, k))
  modifies predictions[startIndex .. startIndex + tr_out(e.transform)]
}

contract (*Ensemble).checkNEstimators(e, nEstimators)(err) {
  props C06 C09
  requires wf_ens(e)
  ensures refused: (err != nil) <==> (is_leaf(e) && nEstimators != nest(e.ensembleBaseInterface))
}

contract (*Ensemble).PredictSingle(e, fvals, nEstimators)(r) {
  props C06 C09
  requires wf_ens(e)
  ensures several_outputs: tr_out(e.transform) != 1 ==> r == 0.0
  ensures short_row: len(fvals) < nfeat(e.ensembleBaseInterface) ==> r == 0.0
  ensures partial_leaves: partial_leaves(e, nEstimators) ==> r == 0.0
  ensures value: tr_out(e.transform) == 1 && len(fvals) >= nfeat(e.ensembleBaseInterface) && !partial_leaves(e, nEstimators) && has_output(e)
    ==> r == outval(e, fvals, used(e, nEstimators), 0)
}

fn refuse_row(e *Ensemble, nf int, np int, n int) bool =
  np < tr_out(e.transform) || nf < nfeat(e.ensembleBaseInterface) || partial_leaves(e, n)

contract (*Ensemble).Predict(e, fvals, nEstimators, predictions)(err) {
  props C06 C09
  region predictions P
  requires wf_ens(e)
  ensures refused: (err != nil) <==> refuse_row(e, len(fvals), len(predictions), nEstimators)
  ensures output: err == nil && has_output(e) ==>
    (forall k int :: 0 <= k && k < tr_out(e.transform) ==> predictions[k] == outval(e, fvals, used(e, nEstimators), k))
  modifies predictions[0 .. if refuse_row(e, len(fvals), len(predictions), nEstimators) then 0 else tr_out(e.transform)]
}

// ---- dense batches -------------------------------------------------------------------------
fn row(vals []float64, r int, ncols int) []float64 = vals[r * ncols : (r + 1) * ncols]
fn refuse_dense(e *Ensemble, np int, nrows int, ncols int, n int) bool =
  np < tr_out(e.transform) * nrows || ncols == 0 || nfeat(e.ensembleBaseInterface) > ncols || partial_leaves(e, n)

// rows 0..m of an m-by-w table lie in the first m*w elements
lemma row_slot(r int, m int, w int) {
  requires 0 <= r && r < m && 0 <= w
  ensures 0 <= r * w && r * w + w <= m * w
}

contract (*Ensemble).PredictDense(e, vals, nrows, ncols, predictions, nEstimators, nThreads)(err) {
  props C06 C07 C09
  region predictions P
  requires wf_ens(e)
  requires refuse_dense(e, len(predictions), nrows, ncols, nEstimators) || nrows * ncols <= len(vals)
  requires nrows <= 4503599627370496
  ensures refused: (err != nil) <==> refuse_dense(e, len(predictions), nrows, ncols, nEstimators)
  ensures rows: err == nil && has_output(e) ==>
    (forall r int, k int :: 0 <= r && r < nrows && 0 <= k && k < tr_out(e.transform) ==>
      predictions[r * tr_out(e.transform) + k] == outval(e, row(vals, r, ncols), used(e, nEstimators), k))
  modifies predictions[0 .. if refuse_dense(e, len(predictions), nrows, ncols, nEstimators) || nrows <= 0 then 0 else nrows * tr_out(e.transform)]
  loop 1 {
    use row_slot($i, nrows, ncols)
    use row_slot($i, nrows, tr_out(e.transform))
    inv done: has_output(e) ==> (forall r int, k int :: 0 <= r && r < $i && 0 <= k && k < tr_out(e.transform) ==>
      predictions[r * tr_out(e.transform) + k] == outval(e, row(vals, r, ncols), used(e, old(nEstimators)), k))
  }
  worker (item) {
    value item * BatchSize
    requires 0 <= item && item * BatchSize < nrows
    owner r = r / BatchSize
    ensures done: has_output(e) ==> (forall r int, k int :: item * BatchSize <= r && r < item * BatchSize + BatchSize && r < nrows && 0 <= k && k < tr_out(e.transform) ==>
      predictions[r * tr_out(e.transform) + k] == outval(e, row(vals, r, ncols), used(e, old(nEstimators)), k))
    footprint predictions[item * BatchSize * tr_out(e.transform) .. (if item * BatchSize + BatchSize < nrows then item * BatchSize + BatchSize else nrows) * tr_out(e.transform)]
    loop 2 {
      use row_slot(item * BatchSize + $i, nrows, ncols)
      use row_slot(item * BatchSize + $i, nrows, tr_out(e.transform))
      inv done: has_output(e) ==> (forall r int, k int :: item * BatchSize <= r && r < item * BatchSize + $i && 0 <= k && k < tr_out(e.transform) ==>
        predictions[r * tr_out(e.transform) + k] == outval(e, row(vals, r, ncols), used(e, old(nEstimators)), k))
    }
  }
}

// ---- sparse batches ------------------------------------------------------------------------
// value of column j among the stored entries lo..hi: the last one stored, else missing
rec csr_val(cols []int, vals []float64, lo int, hi int, j int, missing float64) float64 =
  if hi <= lo then missing else if cols[hi - 1] == j then vals[hi - 1] else csr_val(cols, vals, lo, hi - 1, j, missing)
seq dense_row(e *Ensemble, cols []int, vals []float64, lo int, hi int) []float64 [j < nfeat(e.ensembleBaseInterface)] =
  csr_val(cols, vals, lo, hi, j, missing_value(e.ensembleBaseInterface))

// a readable CSR matrix
fn wf_csr(indptr []int, cols []int, vals []float64) bool =
  len(cols) <= len(vals) && (forall r int :: 0 <= r && r < len(indptr) ==> 0 <= indptr[r] && indptr[r] <= len(cols)) &&
  (forall r int :: 0 <= r && r + 1 < len(indptr) ==> indptr[r] <= indptr[r + 1]) &&
  (forall j int :: 0 <= j && j < len(cols) ==> 0 <= cols[j])
fn refuse_csr(e *Ensemble, np int, nrows int, n int) bool = np < tr_out(e.transform) * nrows || partial_leaves(e, n)

contract (*Ensemble).predictCSRInner(e, indptr, cols, vals, startIndex, endIndex, predictions, nEstimators, fvals) {
  props C08
  region predictions P
  region fvals F
  requires wf_ens(e)
  requires wf_csr(indptr, cols, vals)
  requires 0 <= startIndex && endIndex < len(indptr)
  requires tr_out(e.transform) * endIndex <= len(predictions)
  requires 0 <= nEstimators && nEstimators <= nest(e.ensembleBaseInterface)
  requires is_leaf(e) ==> nEstimators == nest(e.ensembleBaseInterface)
  requires len(fvals) == nfeat(e.ensembleBaseInterface)
  requires clear: forall j int :: 0 <= j && j < len(fvals) ==> fvals[j] == missing_value(e.ensembleBaseInterface)
  ensures clear: forall j int :: 0 <= j && j < len(fvals) ==> fvals[j] == missing_value(e.ensembleBaseInterface)
  ensures rows: has_output(e) ==> (forall r int, k int :: startIndex <= r && r < endIndex && 0 <= k && k < tr_out(e.transform) ==>
    predictions[r * tr_out(e.transform) + k] == outval(e, dense_row(e, cols, vals, indptr[r], indptr[r + 1]), nEstimators, k))
  modifies fvals[0 .. len(fvals)], predictions[startIndex * tr_out(e.transform) .. endIndex * tr_out(e.transform)]
  loop 1 {
    use row_slot(startIndex + $i, endIndex, tr_out(e.transform))
    inv clear: forall j int :: 0 <= j && j < len(fvals) ==> fvals[j] == missing_value(e.ensembleBaseInterface)
    inv rows: has_output(e) ==> (forall r int, k int :: startIndex <= r && r < startIndex + $i && 0 <= k && k < tr_out(e.transform) ==>
      predictions[r * tr_out(e.transform) + k] == outval(e, dense_row(e, cols, vals, indptr[r], indptr[r + 1]), nEstimators, k))
  }
  loop 2 {
    inv entries: forall j int :: 0 <= j && j < len(fvals) ==>
      fvals[j] == csr_val(cols, vals, indptr[startIndex + $1], indptr[startIndex + $1] + $i, j, missing_value(e.ensembleBaseInterface))
  }
}

contract (*Ensemble).PredictCSR(e, indptr, cols, vals, predictions, nEstimators, nThreads)(err) {
  props C06 C08 C09
  region predictions P
  requires wf_ens(e)
  requires refuse_csr(e, len(predictions), len(indptr) - 1, nEstimators) || wf_csr(indptr, cols, vals)
  requires len(indptr) <= 4503599627370496
  ensures refused: (err != nil) <==> refuse_csr(e, len(predictions), len(indptr) - 1, nEstimators)
  ensures rows: err == nil && has_output(e) ==>
    (forall r int, k int :: 0 <= r && r < len(indptr) - 1 && 0 <= k && k < tr_out(e.transform) ==>
      predictions[r * tr_out(e.transform) + k] == outval(e, dense_row(e, cols, vals, indptr[r], indptr[r + 1]), used(e, nEstimators), k))
  modifies predictions[0 .. if refuse_csr(e, len(predictions), len(indptr) - 1, nEstimators) || len(indptr) <= 1 then 0 else (len(indptr) - 1) * tr_out(e.transform)]
  worker (item) {
    value item * BatchSize
    requires 0 <= item && item * BatchSize < len(indptr) - 1
    owner r = r / BatchSize
    ensures done: has_output(e) ==> (forall r int, k int :: item * BatchSize <= r && r < item * BatchSize + BatchSize && r < len(indptr) - 1 && 0 <= k && k < tr_out(e.transform) ==>
      predictions[r * tr_out(e.transform) + k] == outval(e, dense_row(e, cols, vals, indptr[r], indptr[r + 1]), used(e, old(nEstimators)), k))
    footprint predictions[item * BatchSize * tr_out(e.transform) .. (if item * BatchSize + BatchSize < len(indptr) - 1 then item * BatchSize + BatchSize else len(indptr) - 1) * tr_out(e.transform)]
    loop 1 {
      inv clear: forall j int :: 0 <= j && j < nfeat(e.ensembleBaseInterface) ==> fvals[j] == missing_value(e.ensembleBaseInterface)
    }
  }
}
