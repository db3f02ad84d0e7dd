// Tree converters (xgensemble_io.go, skensemble_io.go, lgensemble_io.go)
package leaves

property C17 { leaves.xgTreeFromTreeModel; leaves.xgSplitIndex?; leaves.xgDefaultLeft?; leaves.xgIsLeaf?; lemma xg_conv; lemma unseen_set; lemma unseen_nonneg; lemma flag_bits_distinct }

// ---- trees as values ---------------------------------------------------------------
// the leaf reached from node i of a tree held as a value
rec leaf_at(nodes []lgNode, cb []uint32, ct []uint32, i int, fvals []float64) int =
  let n = nodes[i] in
  if go_left(cb, ct, n.Flags, n.Threshold, fvals[n.Feature])
  then (if f_lleaf(n.Flags) then n.Left else leaf_at(nodes, cb, ct, n.Left, fvals))
  else (if f_rleaf(n.Flags) then n.Right else leaf_at(nodes, cb, ct, i + 1, fvals))

fn value_leaf(nodes []lgNode, cb []uint32, ct []uint32, fvals []float64) int = if len(nodes) == 0 then 0 else leaf_at(nodes, cb, ct, 0, fvals)

// number of nodes not visited yet
rec unseen(v []bool, n int) int = if n <= 0 then 0 else unseen(v, n - 1) + (if v[n - 1] then 0 else 1)

lemma unseen_nonneg(v []bool, n int) {
  requires 0 <= n && n <= len(v)
  ensures 0 <= unseen(v, n) && unseen(v, n) <= n
  decreases n
  use n > 0 ==> unseen_nonneg(v, n - 1)
}

// marking one more node
lemma unseen_set(v []bool, w []bool, n int, k int) {
  requires 0 <= n && n <= len(v) && len(w) == len(v)
  requires forall i int :: 0 <= i && i < n && i != k ==> v[i] == w[i]
  requires 0 <= k && k < n ==> !v[k] && w[k]
  ensures unseen(w, n) == unseen(v, n) - (if 0 <= k && k < n then 1 else 0)
  decreases n
  use n > 0 ==> unseen_set(v, w, n - 1, k)
}

lemma unseen_all(v []bool, n int) {
  requires 0 <= n && n <= len(v)
  requires forall i int :: 0 <= i && i < n ==> !v[i]
  ensures unseen(v, n) == n
  decreases n
  use n > 0 ==> unseen_all(v, n - 1)
}

// ---- XGBoost -------------------------------------------------------------------------
// xparent(ns, c) = 2 * parent of node c (+ 1 for a right child); -1 for the root
uf xparent(ns []xgbin.Node, c int) int

fn xg_leaf(n xgbin.Node) bool = n.CLeft == -1
fn xg_feature(n xgbin.Node) int = n.SIndex & 2147483647
fn xg_dleft(n xgbin.Node) bool = n.SIndex >= 2147483648

fn xg_node_ok(ns []xgbin.Node, nf int, i int) bool =
  xg_leaf(ns[i]) ||
  (0 <= ns[i].CLeft && ns[i].CLeft < len(ns) && 0 <= ns[i].CRight && ns[i].CRight < len(ns) &&
   xparent(ns, ns[i].CLeft) == 2 * i && xparent(ns, ns[i].CRight) == 2 * i + 1 && xg_feature(ns[i]) < nf)

// node 0 is the root, every other node has at most one parent
fn xg_wf(ns []xgbin.Node, nf int) bool =
  len(ns) > 0 && xparent(ns, 0) == 0 - 1 && (forall i int :: 0 <= i && i < len(ns) ==> xg_node_ok(ns, nf, i))

// the leaf the original nodes define
rec xg_target(ns []xgbin.Node, i int, fvals []float64) int unfold 2 =
  if xg_leaf(ns[i]) then i
  else let x = fvals[xg_feature(ns[i])] in
  if (if isnan(x) then xg_dleft(ns[i]) else x <= float64(ns[i].Info)) then xg_target(ns, ns[i].CLeft, fvals) else xg_target(ns, ns[i].CRight, fvals)

// converted node n states what original node o does; its leaf children hold their values
fn xg_match(n lgNode, lv []float64, ns []xgbin.Node, o xgbin.Node) bool =
  !xg_leaf(o) && n.Feature == xg_feature(o) && n.Threshold == float64(o.Info) &&
  !f_cat(n.Flags) && f_mnan(n.Flags) && !f_mzero(n.Flags) && (f_dleft(n.Flags) <==> xg_dleft(o)) &&
  (f_lleaf(n.Flags) <==> xg_leaf(ns[o.CLeft])) && (f_rleaf(n.Flags) <==> xg_leaf(ns[o.CRight])) &&
  (f_lleaf(n.Flags) ==> n.Left < len(lv) && lv[n.Left] == float64(ns[o.CLeft].Info)) &&
  (f_rleaf(n.Flags) ==> n.Right < len(lv) && lv[n.Right] == float64(ns[o.CRight].Info))

// all nodes up to len(nodes) match and are linked
fn xg_linked(nodes []lgNode, lv []float64, ns []xgbin.Node, og imap) bool =
  forall j int :: {nodes[j].Flags} 0 <= j && j < len(nodes) ==>
    0 <= og[j] && og[j] < len(ns) && xg_match(nodes[j], lv, ns, ns[og[j]]) &&
    (!f_rleaf(nodes[j].Flags) ==> j + 1 < len(nodes) && og[j + 1] == ns[og[j]].CRight) &&
    (!f_lleaf(nodes[j].Flags) ==> j < nodes[j].Left && nodes[j].Left < len(nodes) && og[nodes[j].Left] == ns[og[j]].CLeft)

// the converted nodes reach the leaf with the value of the original leaf
lemma xg_conv(nodes []lgNode, lv []float64, cb []uint32, ct []uint32, ns []xgbin.Node, og imap, nf int, j int, fvals []float64) {
  requires xg_wf(ns, nf) && len(fvals) >= nf
  requires xg_linked(nodes, lv, ns, og)
  requires 0 <= j && j < len(nodes)
  ensures lv[leaf_at(nodes, cb, ct, j, fvals)] == float64(ns[xg_target(ns, og[j], fvals)].Info)
  decreases len(nodes) - j
  use xg_conv(nodes, lv, cb, ct, ns, og, nf, j + 1, fvals)
  use xg_conv(nodes, lv, cb, ct, ns, og, nf, nodes[j].Left, fvals)
}

contract xgSplitIndex(n)(r) {
  props C17
  requires n != nil
  ensures low_bits: r == n.SIndex & 2147483647
}
contract xgDefaultLeft(n)(r) {
  props C17
  requires n != nil
  ensures top_bit: r <==> xg_dleft(*n)
}
contract xgIsLeaf(n)(r) {
  props C17
  requires n != nil
  ensures leaf: r <==> n.CLeft == -1
}

contract xgTreeFromTreeModel(ot, numFeatures)(r, err) {
  merge
  props C17
  requires ot != nil
  given node_table_starts_its_array: off(ot.Nodes) == 0
  given tree: len(ot.Nodes) == ot.Param.NumNodes && (ot.Param.NumNodes > 0 ==> xg_wf(ot.Nodes, numFeatures))
  ensures refused: err == nil <==> ot.Param.NumFeature <= int32(numFeatures) && ot.Param.NumRoots == 1 && ot.Param.NumNodes != 0
  ensures well_formed: err == nil ==> wf_table(r.nodes, len(r.leafValues), r.catBoundaries, r.catThresholds, numFeatures)
  ensures constant: err == nil && (ot.Param.NumNodes == 1 || xg_leaf(ot.Nodes[0])) ==> len(r.nodes) == 0 && len(r.leafValues) > 0 && r.leafValues[0] == float64(ot.Nodes[0].Info)
  ensures root: err == nil && !(ot.Param.NumNodes == 1 || xg_leaf(ot.Nodes[0])) ==> len(r.nodes) > 0 && r.nodes[0].Feature == xg_feature(ot.Nodes[0]) && r.nodes[0].Threshold == float64(ot.Nodes[0].Info)
  ensures same_function: err == nil ==> (forall fvals []float64 :: len(fvals) >= numFeatures ==>
    r.leafValues[value_leaf(r.nodes, r.catBoundaries, r.catThresholds, fvals)] == float64(ot.Nodes[xg_target(ot.Nodes, 0, fvals)].Info))
  use forall fvals []float64 :: xg_conv(r.nodes, r.leafValues, r.catBoundaries, r.catThresholds, ot.Nodes, og, numFeatures, 0, fvals)
  loop 1 {
    ghost og imap init upd(cmap(0), 0, 0) next (if len(t.nodes) > prev(len(t.nodes)) then upd(og, len(t.nodes) - 1, origNodeIdxStack[len(origNodeIdxStack) - 1]) else og)
    ghost cv imap init upd(cmap(0), 0, 0) next (if len(t.nodes) > prev(len(t.nodes)) then upd(cv, origNodeIdxStack[len(origNodeIdxStack) - 1], len(t.nodes) - 1) else cv)
    ghost pos imap init upd(cmap(0 - 1), 0, 0) next (if len(t.nodes) > prev(len(t.nodes)) then upd(pos, len(t.nodes) - 1, len(convNodeIdxStack) - 1) else upd(pos, prev(convNodeIdxStack[len(convNodeIdxStack) - 1]), 0 - 1))
    inv sizes: len(visited) == len(ot.Nodes) && len(t.nodes) > 0 && len(origNodeIdxStack) == len(convNodeIdxStack) && og[0] == 0
    inv leaf_count: len(t.leafValues) <= 2 * len(t.nodes)
    inv tables: len(t.catBoundaries) == 0 && len(t.catThresholds) == 0
    inv stack: forall s int :: 0 <= s && s < len(convNodeIdxStack) ==> 0 <= convNodeIdxStack[s] && convNodeIdxStack[s] < len(t.nodes) && origNodeIdxStack[s] == og[convNodeIdxStack[s]] && pos[convNodeIdxStack[s]] == s
    inv matched: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) ==> 0 <= og[j] && og[j] < len(ot.Nodes) && xg_match(t.nodes[j], t.leafValues, ot.Nodes, ot.Nodes[og[j]])
    inv known: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) ==> cv[og[j]] == j && (j == 0 || visited[og[j]])
    inv open: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) && pos[j] >= 0 ==> pos[j] < len(convNodeIdxStack) && convNodeIdxStack[pos[j]] == j
    inv right: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) && !f_rleaf(t.nodes[j].Flags) ==>
      (if visited[ot.Nodes[og[j]].CRight] then j + 1 < len(t.nodes) && og[j + 1] == ot.Nodes[og[j]].CRight
       else j == len(t.nodes) - 1 && pos[j] >= 0 && pos[j] == len(convNodeIdxStack) - 1)
    inv left: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) && !f_lleaf(t.nodes[j].Flags) ==>
      (if visited[ot.Nodes[og[j]].CLeft] then j < t.nodes[j].Left && t.nodes[j].Left < len(t.nodes) && og[t.nodes[j].Left] == ot.Nodes[og[j]].CLeft
       else pos[j] >= 0)
    inv seen: forall y int :: {visited[y], xparent(ot.Nodes, y)} 0 <= y && y < len(ot.Nodes) && visited[y] ==> xparent(ot.Nodes, y) >= 0 && (xparent(ot.Nodes, y) / 2 == 0 || visited[xparent(ot.Nodes, y) / 2])
    inv count: len(t.nodes) + unseen(visited, len(visited)) == len(ot.Nodes) + 1
    step len(t.nodes) > prev(len(t.nodes)) ==> unseen_set(prev(visited), visited, len(visited), origNodeIdxStack[len(origNodeIdxStack) - 1])
    use unseen_nonneg(visited, len(visited))
    use unseen_all(visited, len(visited))
    decreases 2 * unseen(visited, len(visited)) + len(convNodeIdxStack)
  }
}
