// XGBoost loaders (xgensemble_io.go, xgblinear_io.go): what a file means, over the byte
// offsets of 80_xgbin.spec
package leaves

property C20 { leaves.XGBLinearFromReader; leaves.XGEnsembleFromReader; lemma mod_step; xgbin.ReadModelHeader; xgbin.ReadGBLinearModel; xgbin.ReadGBTreeModel; xgbin.ReadFloat32Slice; leaves.xgTreeFromTreeModel; lemma file_node_wf; lemma file_wf; lemma file_same }

fn hdr_name(w string, s int, p int) bool = str_is(w, s, hdr_gbm(s, p) + 8, le_u64(s, hdr_gbm(s, p)))
fn hdr_objective(w string, s int, p int) bool = str_is(w, s, hdr_obj(p) + 8, le_u64(s, hdr_obj(p)))
fn hdr_sizes_ok(s int, p int) bool = le_u64(s, hdr_obj(p)) < 9223372036854775807 && le_u64(s, hdr_gbm(s, p)) < 9223372036854775807

// ---- gblinear ------------------------------------------------------------------------
contract XGBLinearFromReader(reader, loadTransformation)(r, err) {
  merge
  props C20
  requires reader != nil
  given sizes_in_range: hdr_sizes_ok(sid(reader), pos(reader)) && le_u64(sid(reader), hdr_end(sid(reader), pos(reader)) + 136) < 9223372036854775807
  modifies stream(reader)
  ensures refused: err == nil ==> hdr_fits(sid(reader), old(pos(reader))) && hdr_name("gblinear", sid(reader), old(pos(reader))) &&
    le_u32(sid(reader), old(pos(reader)) + 4) != 0 && vec_fits(sid(reader), hdr_end(sid(reader), old(pos(reader))) + 136, 4) &&
    (loadTransformation ==> hdr_objective("binary:logistic", sid(reader), old(pos(reader))) && le_i32(sid(reader), hdr_end(sid(reader), old(pos(reader))) + 4) == 1)
  ensures no_model: err != nil ==> r == nil
  ensures model: err == nil ==> r != nil && is(r.ensembleBaseInterface, *xgLinear) && as(r.ensembleBaseInterface, *xgLinear) != nil && r.transform != nil
  ensures header: err == nil ==> as(r.ensembleBaseInterface, *xgLinear).BaseScore == float64(le_f32(sid(reader), old(pos(reader)))) &&
    as(r.ensembleBaseInterface, *xgLinear).NumFeature == le_u32(sid(reader), hdr_end(sid(reader), old(pos(reader)))) &&
    as(r.ensembleBaseInterface, *xgLinear).nRawOutputGroups == le_i32(sid(reader), hdr_end(sid(reader), old(pos(reader))) + 4) &&
    as(r.ensembleBaseInterface, *xgLinear).nRawOutputGroups >= 1
  ensures weights: err == nil ==> len(as(r.ensembleBaseInterface, *xgLinear).Weights) == (as(r.ensembleBaseInterface, *xgLinear).NumFeature + 1) * as(r.ensembleBaseInterface, *xgLinear).nRawOutputGroups &&
    (forall i int :: 0 <= i && i < len(as(r.ensembleBaseInterface, *xgLinear).Weights) ==>
      as(r.ensembleBaseInterface, *xgLinear).Weights[i] == le_f32(sid(reader), hdr_end(sid(reader), old(pos(reader))) + 144 + 4 * i))
  ensures transformation: err == nil ==> (if loadTransformation then is(r.transform, *transformation.TransformLogistic)
    else is(r.transform, *transformation.TransformRaw) && as(r.transform, *transformation.TransformRaw).NumOutputGroups == as(r.ensembleBaseInterface, *xgLinear).nRawOutputGroups)
}

// ---- trees, over the bytes of the file ---------------------------------------------------
fn file_node(b int, i int) int = b + 148 + 20 * i
fn file_leaf(s int, b int, i int) bool = le_i32(s, file_node(b, i) + 4) == -1
// the leaf node the tree at b selects for a row, from its node i
rec file_target(s int, b int, i int, fvals []float64) int unfold 2 =
  if file_leaf(s, b, i) then i
  else let x = fvals[le_u32(s, file_node(b, i) + 12) & 2147483647] in
  if (if isnan(x) then le_u32(s, file_node(b, i) + 12) >= 2147483648 else x <= float64(le_f32(s, file_node(b, i) + 16)))
  then file_target(s, b, le_i32(s, file_node(b, i) + 4), fvals) else file_target(s, b, le_i32(s, file_node(b, i) + 8), fvals)
fn file_value(s int, b int, fvals []float64) float64 = float64(le_f32(s, file_node(b, file_target(s, b, 0, fvals)) + 16))

// the node table at b is a tree over nf features: node 0 is the root, every other node has one
// parent (file_parent = 2 * parent, + 1 for a right child) and children have a smaller rank
uf file_parent(s int, b int, c int) int
uf file_rank(s int, b int, c int) int
fn file_node_ok(s int, b int, nf int, i int) bool =
  file_rank(s, b, i) >= 0 && (file_leaf(s, b, i) ||
  (0 <= le_i32(s, file_node(b, i) + 4) && le_i32(s, file_node(b, i) + 4) < tree_nodes(s, b) &&
   0 <= le_i32(s, file_node(b, i) + 8) && le_i32(s, file_node(b, i) + 8) < tree_nodes(s, b) &&
   file_parent(s, b, le_i32(s, file_node(b, i) + 4)) == 2 * i && file_parent(s, b, le_i32(s, file_node(b, i) + 8)) == 2 * i + 1 &&
   file_rank(s, b, le_i32(s, file_node(b, i) + 4)) < file_rank(s, b, i) && file_rank(s, b, le_i32(s, file_node(b, i) + 8)) < file_rank(s, b, i) &&
   le_u32(s, file_node(b, i) + 12) & 2147483647 < nf))
fn file_tree_ok(s int, b int, nf int) bool =
  file_parent(s, b, 0) == 0 - 1 && (forall i int :: {file_rank(s, b, i)} 0 <= i && i < tree_nodes(s, b) ==> file_node_ok(s, b, nf, i))

// xparent of a decoded node table is the parent function of the file
axiom parents_of_file(ns []xgbin.Node, s int, b int, c int) {
  requires nodes_are(ns, s, b)
  ensures xparent(ns, c) == file_parent(s, b, c)
}

lemma file_node_wf(ns []xgbin.Node, s int, b int, nf int, i int) {
  requires nodes_are(ns, s, b) && file_tree_ok(s, b, nf) && 0 <= i && i < len(ns)
  ensures xg_node_ok(ns, nf, i)
  use parents_of_file(ns, s, b, ns[i].CLeft)
  use parents_of_file(ns, s, b, ns[i].CRight)
}

lemma file_wf(ns []xgbin.Node, s int, b int, nf int) {
  requires nodes_are(ns, s, b) && file_tree_ok(s, b, nf) && len(ns) > 0
  ensures xg_wf(ns, nf)
  use parents_of_file(ns, s, b, 0)
  use forall i int :: file_node_wf(ns, s, b, nf, i)
}

lemma file_same(ns []xgbin.Node, s int, b int, nf int, i int, fvals []float64) {
  requires nodes_are(ns, s, b) && file_tree_ok(s, b, nf) && 0 <= i && i < len(ns) && len(fvals) >= nf
  ensures xg_target(ns, i, fvals) == file_target(s, b, i, fvals) && 0 <= file_target(s, b, i, fvals) && file_target(s, b, i, fvals) < len(ns)
  decreases file_rank(s, b, i)
  use !file_leaf(s, b, i) ==> file_same(ns, s, b, nf, le_i32(s, file_node(b, i) + 4), fvals)
  use !file_leaf(s, b, i) ==> file_same(ns, s, b, nf, le_i32(s, file_node(b, i) + 8), fvals)
}

lemma mod_step(i int, g int) {
  requires i >= 0 && g >= 1
  ensures (i + 1) % g == (if i % g + 1 >= g then 0 else i % g + 1)
}

// ---- gbtree and dart ------------------------------------------------------------------------
fn gbt_end(s int, h int) int = gbtree_at(s, h, gbtree_count(s, h)) + 4 * gbtree_count(s, h)
fn gbtree_label(s int, h int, i int) int = le_i32(s, gbtree_at(s, h, gbtree_count(s, h)) + 4 * i)

contract XGEnsembleFromReader(reader, loadTransformation)(r, err) {
  merge
  hide file_tree_ok, gbtree_trees_fit, gbtree_sizes_ok, hdr_fits, hdr_end, str_is
  props C20
  requires reader != nil
  given sizes_in_range: hdr_sizes_ok(sid(reader), pos(reader)) && gbtree_sizes_ok(sid(reader), hdr_end(sid(reader), pos(reader))) &&
    gbtree_count(sid(reader), hdr_end(sid(reader), pos(reader))) >= 0 &&
    le_u64(sid(reader), gbt_end(sid(reader), hdr_end(sid(reader), pos(reader)))) < 9223372036854775807
  modifies stream(reader)
  ensures refused: err == nil ==> hdr_fits(sid(reader), old(pos(reader))) && le_u32(sid(reader), old(pos(reader)) + 4) != 0 &&
    gbtree_fits(sid(reader), hdr_end(sid(reader), old(pos(reader)))) &&
    (loadTransformation ==> hdr_objective("binary:logistic", sid(reader), old(pos(reader))) && as(r.ensembleBaseInterface, *xgEnsemble).nRawOutputGroups == 1)
  ensures counts: err == nil ==> gbtree_count(sid(reader), hdr_end(sid(reader), old(pos(reader)))) > 0 &&
    le_i32(sid(reader), hdr_end(sid(reader), old(pos(reader))) + 4) == 1 &&
    le_i32(sid(reader), hdr_end(sid(reader), old(pos(reader))) + 8) <= int32(le_u32(sid(reader), old(pos(reader)) + 4)) &&
    as(r.ensembleBaseInterface, *xgEnsemble).nRawOutputGroups >= 1 &&
    gbtree_count(sid(reader), hdr_end(sid(reader), old(pos(reader)))) % as(r.ensembleBaseInterface, *xgEnsemble).nRawOutputGroups == 0
  ensures labels: err == nil ==> (forall i int :: {gbtree_label(sid(reader), hdr_end(sid(reader), old(pos(reader))), i)} 0 <= i && i < gbtree_count(sid(reader), hdr_end(sid(reader), old(pos(reader)))) ==>
    gbtree_label(sid(reader), hdr_end(sid(reader), old(pos(reader))), i) == i % as(r.ensembleBaseInterface, *xgEnsemble).nRawOutputGroups)
  ensures no_model: err != nil ==> r == nil
  ensures model: err == nil ==> r != nil && is(r.ensembleBaseInterface, *xgEnsemble) && as(r.ensembleBaseInterface, *xgEnsemble) != nil && r.transform != nil
  ensures header: err == nil ==> as(r.ensembleBaseInterface, *xgEnsemble).BaseScore == float64(le_f32(sid(reader), old(pos(reader)))) &&
    as(r.ensembleBaseInterface, *xgEnsemble).MaxFeatureIdx == le_u32(sid(reader), old(pos(reader)) + 4) - 1 &&
    as(r.ensembleBaseInterface, *xgEnsemble).nRawOutputGroups == le_i32(sid(reader), hdr_end(sid(reader), old(pos(reader))) + 24) &&
    (as(r.ensembleBaseInterface, *xgEnsemble).name == "xgboost.gbtree" && hdr_name("gbtree", sid(reader), old(pos(reader))) ||
     as(r.ensembleBaseInterface, *xgEnsemble).name == "xgboost.dart" && hdr_name("dart", sid(reader), old(pos(reader))))
  ensures weights: err == nil ==> len(as(r.ensembleBaseInterface, *xgEnsemble).WeightDrop) == gbtree_count(sid(reader), hdr_end(sid(reader), old(pos(reader)))) &&
    (as(r.ensembleBaseInterface, *xgEnsemble).name == "xgboost.gbtree" ==> (forall i int :: 0 <= i && i < len(as(r.ensembleBaseInterface, *xgEnsemble).WeightDrop) ==> as(r.ensembleBaseInterface, *xgEnsemble).WeightDrop[i] == 1.0)) &&
    (as(r.ensembleBaseInterface, *xgEnsemble).name == "xgboost.dart" ==> (forall i int :: 0 <= i && i < len(as(r.ensembleBaseInterface, *xgEnsemble).WeightDrop) ==>
      as(r.ensembleBaseInterface, *xgEnsemble).WeightDrop[i] == float64(le_f32(sid(reader), gbt_end(sid(reader), hdr_end(sid(reader), old(pos(reader)))) + 8 + 4 * i))))
  ensures tree_count: err == nil ==> len(as(r.ensembleBaseInterface, *xgEnsemble).Trees) == gbtree_count(sid(reader), hdr_end(sid(reader), old(pos(reader))))
  ensures transformation: err == nil ==> (if loadTransformation then is(r.transform, *transformation.TransformLogistic)
    else is(r.transform, *transformation.TransformRaw) && as(r.transform, *transformation.TransformRaw).NumOutputGroups == as(r.ensembleBaseInterface, *xgEnsemble).nRawOutputGroups)
  loop 1 {
    inv filled: forall k int :: 0 <= k && k < $i ==> e.WeightDrop[k] == float64(le_f32(sid(reader), gbt_end(sid(reader), hdr_end(sid(reader), old(pos(reader)))) + 8 + 4 * k))
  }
  loop 4 {
    inv filled: forall k int :: 0 <= k && k < i ==> e.WeightDrop[k] == 1.0
    decreases origModel.Param.NumTrees - i
  }
  loop 2 {
    inv cycle: curID == i % e.nRawOutputGroups
    inv labels: forall k int :: {gbtree_label(sid(reader), hdr_end(sid(reader), old(pos(reader))), k)} 0 <= k && k < i ==> gbtree_label(sid(reader), hdr_end(sid(reader), old(pos(reader))), k) == k % e.nRawOutputGroups
    use mod_step(i, e.nRawOutputGroups)
    decreases len(origModel.TreeInfo) - i
  }
  loop 3 {
    inv count: len(e.Trees) == i && i <= nTrees
    inv storage: fresh(e.Trees)
    decreases nTrees - i
  }
}
