// XGBoost's binary format (internal/xgbin/xgbin_io.go). A stream is a ghost
// sequence of bytes of length bin_end(s); le_*(s, p) is the little-endian value at offset p.
package xgbin

property C21 { xgbin.ReadString; xgbin.ReadFloat32Slice; xgbin.ReadInt32Slice; xgbin.ReadModelHeader; xgbin.ReadTreeModel; xgbin.ReadGBTreeModel; xgbin.ReadGBLinearModel }

// the string of n bytes at p
fn str_is(r string, s int, p int, n int) bool = len(r) == n && (forall i int :: {r[i]} 0 <= i && i < n ==> r[i] == le_u8(s, p + i))

fn vec_end(s int, p int, w int) int = p + 8 + w * le_u64(s, p)
fn vec_fits(s int, p int, w int) bool = p + 8 <= bin_end(s) && vec_end(s, p, w) <= bin_end(s)

contract ReadString(reader)(r, err) {
  props C21
  requires reader != nil
  given size_in_range: le_u64(sid(reader), pos(reader)) < 9223372036854775807
  modifies stream(reader)
  ensures fails: err == nil <==> vec_fits(sid(reader), old(pos(reader)), 1)
  ensures position: err == nil ==> pos(reader) == vec_end(sid(reader), old(pos(reader)), 1)
  ensures content: err == nil ==> str_is(r, sid(reader), old(pos(reader)) + 8, le_u64(sid(reader), old(pos(reader))))
  ensures nothing: err != nil ==> r == ""
}

contract ReadFloat32Slice(reader)(r, err) {
  props C21
  requires reader != nil
  given size_in_range: le_u64(sid(reader), pos(reader)) < 9223372036854775807
  modifies stream(reader)
  ensures fails: err == nil <==> vec_fits(sid(reader), old(pos(reader)), 4)
  ensures position: err == nil ==> pos(reader) == vec_end(sid(reader), old(pos(reader)), 4)
  ensures content: err == nil ==> len(r) == le_u64(sid(reader), old(pos(reader))) &&
    (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == le_f32(sid(reader), old(pos(reader)) + 8 + 4 * i))
  ensures own: fresh(r)
  ensures nothing: err != nil ==> r == nil
  ensures storage: off(r) == 0
}

contract ReadInt32Slice(reader)(r, err) {
  props C21
  requires reader != nil
  given size_in_range: le_u64(sid(reader), pos(reader)) < 9223372036854775807
  modifies stream(reader)
  ensures fails: err == nil <==> vec_fits(sid(reader), old(pos(reader)), 4)
  ensures position: err == nil ==> pos(reader) == vec_end(sid(reader), old(pos(reader)), 4)
  ensures content: err == nil ==> len(r) == le_u64(sid(reader), old(pos(reader))) &&
    (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == le_i32(sid(reader), old(pos(reader)) + 8 + 4 * i))
  ensures own: fresh(r)
  ensures nothing: err != nil ==> r == nil
}

// ---- the header: 136 bytes of parameters, then two strings ----------------------
fn hdr_obj(p int) int = p + 136
fn hdr_gbm(s int, p int) int = vec_end(s, p + 136, 1)
fn hdr_end(s int, p int) int = vec_end(s, hdr_gbm(s, p), 1)
fn hdr_fits(s int, p int) bool = p + 136 <= bin_end(s) && vec_fits(s, hdr_obj(p), 1) && vec_fits(s, hdr_gbm(s, p), 1)

contract ReadModelHeader(reader)(r, err) {
  props C21
  requires reader != nil
  given size_in_range: le_u64(sid(reader), hdr_obj(pos(reader))) < 9223372036854775807 && le_u64(sid(reader), hdr_gbm(sid(reader), pos(reader))) < 9223372036854775807
  modifies stream(reader)
  ensures fails: err == nil <==> hdr_fits(sid(reader), old(pos(reader)))
  ensures nothing: err != nil <==> r == nil
  ensures position: err == nil ==> pos(reader) == hdr_end(sid(reader), old(pos(reader)))
  ensures fields: err == nil ==> r.Param.BaseScore == le_f32(sid(reader), old(pos(reader))) && r.Param.NumFeatures == le_u32(sid(reader), old(pos(reader)) + 4) &&
    r.Param.NumClass == le_i32(sid(reader), old(pos(reader)) + 8) && r.Param.ContainExtraAttrs == le_i32(sid(reader), old(pos(reader)) + 12) &&
    r.Param.ContainEvalMetrics == le_i32(sid(reader), old(pos(reader)) + 16)
  ensures objective: err == nil ==> str_is(r.NameObj, sid(reader), hdr_obj(old(pos(reader))) + 8, le_u64(sid(reader), hdr_obj(old(pos(reader)))))
  ensures booster: err == nil ==> str_is(r.NameGbm, sid(reader), hdr_gbm(sid(reader), old(pos(reader))) + 8, le_u64(sid(reader), hdr_gbm(sid(reader), old(pos(reader)))))
  ensures own: err == nil ==> fresh(r)
}

// ---- a tree: 148 bytes of parameters, 20 bytes a node, 16 bytes a statistic, perhaps a leaf vector
fn tree_nodes(s int, p int) int = le_i32(s, p + 4)
fn tree_stats_at(s int, p int) int = p + 148 + 20 * tree_nodes(s, p)
fn tree_fixed_end(s int, p int) int = p + 148 + 36 * tree_nodes(s, p)
fn tree_vector(s int, p int) bool = le_i32(s, p + 20) > 0
fn tree_end(s int, p int) int = if tree_vector(s, p) then vec_end(s, tree_fixed_end(s, p), 4) else tree_fixed_end(s, p)
fn tree_fits(s int, p int) bool = p + 148 <= bin_end(s) && tree_fixed_end(s, p) <= bin_end(s) && (tree_vector(s, p) ==> vec_fits(s, tree_fixed_end(s, p), 4))

fn node_is(n Node, s int, p int) bool = n.Parent == le_i32(s, p) && n.CLeft == le_i32(s, p + 4) && n.CRight == le_i32(s, p + 8) && n.SIndex == le_u32(s, p + 12) && n.Info == le_f32(s, p + 16)
fn stat_is(n RTreeNodeStat, s int, p int) bool = n.LossChg == le_f32(s, p) && n.SumHess == le_f32(s, p + 4) && n.BaseWeight == le_f32(s, p + 8) && n.LeafChildCnt == le_i32(s, p + 12)
// the node table of the tree at b
fn nodes_are(ns []Node, s int, b int) bool =
  len(ns) == tree_nodes(s, b) && (forall k int :: {ns[k]} 0 <= k && k < len(ns) ==> node_is(ns[k], s, b + 148 + 20 * k))
fn tree_param_is(t TreeParam, s int, p int) bool = t.NumRoots == le_i32(s, p) && t.NumNodes == le_i32(s, p + 4) && t.NumDeleted == le_i32(s, p + 8) &&
  t.MaxDepth == le_i32(s, p + 12) && t.NumFeature == le_i32(s, p + 16) && t.SizeLeafVector == le_i32(s, p + 20)

contract ReadTreeModel(reader)(r, err) {
  props C21
  requires reader != nil
  given sizes_in_range: tree_nodes(sid(reader), pos(reader)) >= 0 && le_u64(sid(reader), tree_fixed_end(sid(reader), pos(reader))) < 9223372036854775807
  modifies stream(reader)
  ensures fails: err == nil <==> tree_fits(sid(reader), old(pos(reader)))
  ensures nothing: err != nil <==> r == nil
  ensures position: err == nil ==> pos(reader) == tree_end(sid(reader), old(pos(reader)))
  ensures parameters: err == nil ==> tree_param_is(r.Param, sid(reader), old(pos(reader)))
  ensures counts: err == nil ==> len(r.Nodes) == tree_nodes(sid(reader), old(pos(reader))) && len(r.Stats) == tree_nodes(sid(reader), old(pos(reader)))
  ensures nodes: err == nil ==> (forall i int :: {r.Nodes[i]} 0 <= i && i < len(r.Nodes) ==> node_is(r.Nodes[i], sid(reader), old(pos(reader)) + 148 + 20 * i))
  ensures storage: err == nil ==> off(r.Nodes) == 0
  ensures stats: err == nil ==> (forall i int :: {r.Stats[i]} 0 <= i && i < len(r.Stats) ==> stat_is(r.Stats[i], sid(reader), tree_stats_at(sid(reader), old(pos(reader))) + 16 * i))
  ensures own: err == nil ==> fresh(r)
  loop 1 {
    inv param: tree_param_is(treeModel.Param, sid(reader), old(pos(reader)))
    inv position: pos(reader) == old(pos(reader)) + 148 + 20 * len(treeModel.Nodes) && pos(reader) <= bin_end(sid(reader))
    inv counts: len(treeModel.Nodes) == i && len(treeModel.Stats) == 0 && i <= treeModel.Param.NumNodes
    inv storage: fresh(treeModel.Nodes) && fresh(treeModel.Stats) && off(treeModel.Nodes) == 0
    inv nodes: forall k int :: {treeModel.Nodes[k]} 0 <= k && k < len(treeModel.Nodes) ==> node_is(treeModel.Nodes[k], sid(reader), old(pos(reader)) + 148 + 20 * k)
    decreases treeModel.Param.NumNodes - i
  }
  loop 2 {
    inv param: tree_param_is(treeModel.Param, sid(reader), old(pos(reader)))
    inv position: pos(reader) == tree_stats_at(sid(reader), old(pos(reader))) + 16 * len(treeModel.Stats) && pos(reader) <= bin_end(sid(reader))
    inv counts: len(treeModel.Nodes) == treeModel.Param.NumNodes && len(treeModel.Stats) == i && i <= treeModel.Param.NumNodes
    inv storage: fresh(treeModel.Nodes) && fresh(treeModel.Stats) && off(treeModel.Nodes) == 0
    inv nodes: forall k int :: {treeModel.Nodes[k]} 0 <= k && k < len(treeModel.Nodes) ==> node_is(treeModel.Nodes[k], sid(reader), old(pos(reader)) + 148 + 20 * k)
    inv stats: forall k int :: {treeModel.Stats[k]} 0 <= k && k < len(treeModel.Stats) ==> stat_is(treeModel.Stats[k], sid(reader), tree_stats_at(sid(reader), old(pos(reader))) + 16 * k)
    decreases treeModel.Param.NumNodes - i
  }
}

// ---- a gblinear model: 136 bytes of parameters, then the weights -------------------
contract ReadGBLinearModel(reader)(r, err) {
  props C21
  requires reader != nil
  given size_in_range: le_u64(sid(reader), pos(reader) + 136) < 9223372036854775807
  modifies stream(reader)
  ensures fails: err == nil <==> (old(pos(reader)) + 136 <= bin_end(sid(reader)) && vec_fits(sid(reader), old(pos(reader)) + 136, 4))
  ensures nothing: err != nil <==> r == nil
  ensures position: err == nil ==> pos(reader) == vec_end(sid(reader), old(pos(reader)) + 136, 4)
  ensures parameters: err == nil ==> r.Param.NumFeature == le_u32(sid(reader), old(pos(reader))) && r.Param.NumOutputGroup == le_i32(sid(reader), old(pos(reader)) + 4)
  ensures weights: err == nil ==> len(r.Weights) == le_u64(sid(reader), old(pos(reader)) + 136) &&
    (forall i int :: {r.Weights[i]} 0 <= i && i < len(r.Weights) ==> r.Weights[i] == le_f32(sid(reader), old(pos(reader)) + 144 + 4 * i))
  ensures own: err == nil ==> fresh(r) && fresh(r.Weights)
}

// ---- a gbtree model: 160 bytes of parameters, the trees one after the other, their labels
rec tree_pos(s int, p int, i int) int unfold 2 = if i <= 0 then p else tree_end(s, tree_pos(s, p, i - 1))
fn nonneg(n int) int = if n > 0 then n else 0
fn gbtree_count(s int, p int) int = le_i32(s, p)
fn gbtree_at(s int, p int, i int) int = tree_pos(s, p + 160, i)
fn gbtree_sizes_ok(s int, p int) bool = forall i int :: {tree_pos(s, p + 160, i)} 0 <= i && i < gbtree_count(s, p) ==>
  tree_nodes(s, gbtree_at(s, p, i)) >= 0 && le_u64(s, tree_fixed_end(s, gbtree_at(s, p, i))) < 9223372036854775807
fn gbtree_trees_fit(s int, p int) bool = forall i int :: {tree_pos(s, p + 160, i)} 0 <= i && i < gbtree_count(s, p) ==> tree_fits(s, gbtree_at(s, p, i))
fn gbtree_labels_fit(s int, p int) bool = gbtree_count(s, p) > 0 ==> gbtree_at(s, p, gbtree_count(s, p)) + 4 * gbtree_count(s, p) <= bin_end(s)
fn gbtree_fits(s int, p int) bool = p + 160 <= bin_end(s) && gbtree_trees_fit(s, p) && gbtree_labels_fit(s, p)
fn gbtree_param_is(g GBTreeModelParam, s int, p int) bool = g.NumTrees == le_i32(s, p) && g.NumRoots == le_i32(s, p + 4) && g.NumFeature == le_i32(s, p + 8) &&
  g.NumOutputGroup == le_i32(s, p + 24) && g.SizeLeafVector == le_i32(s, p + 28)

contract ReadGBTreeModel(reader)(r, err) {
  props C21
  requires reader != nil
  given sizes_in_range: gbtree_sizes_ok(sid(reader), pos(reader))
  modifies stream(reader)
  ensures fails: err == nil ==> gbtree_fits(sid(reader), old(pos(reader)))
  ensures reads: gbtree_fits(sid(reader), old(pos(reader))) ==> err == nil
  ensures nothing: err != nil <==> r == nil
  ensures parameters: err == nil ==> gbtree_param_is(r.Param, sid(reader), old(pos(reader)))
  ensures position: err == nil ==> pos(reader) == gbtree_at(sid(reader), old(pos(reader)), nonneg(gbtree_count(sid(reader), old(pos(reader))))) + 4 * nonneg(gbtree_count(sid(reader), old(pos(reader))))
  ensures count: err == nil ==> len(r.Trees) == nonneg(gbtree_count(sid(reader), old(pos(reader))))
  ensures objects: err == nil ==> (forall i int :: {r.Trees[i]} 0 <= i && i < len(r.Trees) ==> r.Trees[i] != nil)
  ensures tree_parameters: err == nil ==> (forall i int :: {r.Trees[i]} 0 <= i && i < len(r.Trees) ==> tree_param_is(r.Trees[i].Param, sid(reader), gbtree_at(sid(reader), old(pos(reader)), i)))
  ensures tree_counts: err == nil ==> (forall i int :: {r.Trees[i]} 0 <= i && i < len(r.Trees) ==>
    len(r.Trees[i].Nodes) == tree_nodes(sid(reader), gbtree_at(sid(reader), old(pos(reader)), i)) && len(r.Trees[i].Stats) == len(r.Trees[i].Nodes))
  ensures tree_nodes: err == nil ==> (forall i int :: {r.Trees[i]} 0 <= i && i < len(r.Trees) ==> nodes_are(r.Trees[i].Nodes, sid(reader), gbtree_at(sid(reader), old(pos(reader)), i)))
  ensures tree_storage: err == nil ==> (forall i int :: {r.Trees[i]} 0 <= i && i < len(r.Trees) ==> off(r.Trees[i].Nodes) == 0)
  ensures labels: err == nil ==> len(r.TreeInfo) == len(r.Trees) && (forall i int :: {r.TreeInfo[i]} 0 <= i && i < len(r.TreeInfo) ==>
    r.TreeInfo[i] == le_i32(sid(reader), gbtree_at(sid(reader), old(pos(reader)), len(r.Trees)) + 4 * i))
  ensures own: err == nil ==> fresh(r)
  loop 1 {
    inv param: gbtree_param_is(gBTreeModel.Param, sid(reader), old(pos(reader)))
    inv count: len(gBTreeModel.Trees) == i && len(gBTreeModel.TreeInfo) == 0 && i <= nonneg(gBTreeModel.Param.NumTrees)
    inv position: pos(reader) == gbtree_at(sid(reader), old(pos(reader)), len(gBTreeModel.Trees))
    inv fit: forall k int :: {tree_pos(sid(reader), old(pos(reader)) + 160, k)} 0 <= k && k < len(gBTreeModel.Trees) ==> tree_fits(sid(reader), gbtree_at(sid(reader), old(pos(reader)), k))
    inv objects: forall k int :: {gBTreeModel.Trees[k]} 0 <= k && k < len(gBTreeModel.Trees) ==> gBTreeModel.Trees[k] != nil
    inv storage: fresh(gBTreeModel.Trees)
    inv tree_parameters: forall k int :: {gBTreeModel.Trees[k]} 0 <= k && k < len(gBTreeModel.Trees) ==> tree_param_is(gBTreeModel.Trees[k].Param, sid(reader), gbtree_at(sid(reader), old(pos(reader)), k))
    inv tree_counts: forall k int :: {gBTreeModel.Trees[k]} 0 <= k && k < len(gBTreeModel.Trees) ==>
      len(gBTreeModel.Trees[k].Nodes) == tree_nodes(sid(reader), gbtree_at(sid(reader), old(pos(reader)), k)) && len(gBTreeModel.Trees[k].Stats) == len(gBTreeModel.Trees[k].Nodes)
    inv tree_storage: forall k int :: {gBTreeModel.Trees[k]} 0 <= k && k < len(gBTreeModel.Trees) ==> off(gBTreeModel.Trees[k].Nodes) == 0
    inv tree_nodes: forall k int :: {gBTreeModel.Trees[k]} 0 <= k && k < len(gBTreeModel.Trees) ==> nodes_are(gBTreeModel.Trees[k].Nodes, sid(reader), gbtree_at(sid(reader), old(pos(reader)), k))
    decreases gBTreeModel.Param.NumTrees - i
  }
}
